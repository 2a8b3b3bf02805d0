------------------------------ MODULE OpNames ------------------------------
(* Generated by tools/mkopnames.py: << name as code points, number >> *)
OpTable == {
  << << 79, 80, 95, 48 >>, 0 >>, \* OP_0
  << << 79, 80, 95, 70, 65, 76, 83, 69 >>, 0 >>, \* OP_FALSE
  << << 79, 80, 95, 80, 85, 83, 72, 68, 65, 84, 65, 49 >>, 76 >>, \* OP_PUSHDATA1
  << << 79, 80, 95, 80, 85, 83, 72, 68, 65, 84, 65, 50 >>, 77 >>, \* OP_PUSHDATA2
  << << 79, 80, 95, 80, 85, 83, 72, 68, 65, 84, 65, 52 >>, 78 >>, \* OP_PUSHDATA4
  << << 79, 80, 95, 49, 78, 69, 71, 65, 84, 69 >>, 79 >>, \* OP_1NEGATE
  << << 79, 80, 95, 82, 69, 83, 69, 82, 86, 69, 68 >>, 80 >>, \* OP_RESERVED
  << << 79, 80, 95, 49 >>, 81 >>, \* OP_1
  << << 79, 80, 95, 84, 82, 85, 69 >>, 81 >>, \* OP_TRUE
  << << 79, 80, 95, 50 >>, 82 >>, \* OP_2
  << << 79, 80, 95, 51 >>, 83 >>, \* OP_3
  << << 79, 80, 95, 52 >>, 84 >>, \* OP_4
  << << 79, 80, 95, 53 >>, 85 >>, \* OP_5
  << << 79, 80, 95, 54 >>, 86 >>, \* OP_6
  << << 79, 80, 95, 55 >>, 87 >>, \* OP_7
  << << 79, 80, 95, 56 >>, 88 >>, \* OP_8
  << << 79, 80, 95, 57 >>, 89 >>, \* OP_9
  << << 79, 80, 95, 49, 48 >>, 90 >>, \* OP_10
  << << 79, 80, 95, 49, 49 >>, 91 >>, \* OP_11
  << << 79, 80, 95, 49, 50 >>, 92 >>, \* OP_12
  << << 79, 80, 95, 49, 51 >>, 93 >>, \* OP_13
  << << 79, 80, 95, 49, 52 >>, 94 >>, \* OP_14
  << << 79, 80, 95, 49, 53 >>, 95 >>, \* OP_15
  << << 79, 80, 95, 49, 54 >>, 96 >>, \* OP_16
  << << 79, 80, 95, 78, 79, 80 >>, 97 >>, \* OP_NOP
  << << 79, 80, 95, 73, 70 >>, 99 >>, \* OP_IF
  << << 79, 80, 95, 78, 79, 84, 73, 70 >>, 100 >>, \* OP_NOTIF
  << << 79, 80, 95, 69, 76, 83, 69 >>, 103 >>, \* OP_ELSE
  << << 79, 80, 95, 69, 78, 68, 73, 70 >>, 104 >>, \* OP_ENDIF
  << << 79, 80, 95, 86, 69, 82, 73, 70, 89 >>, 105 >>, \* OP_VERIFY
  << << 79, 80, 95, 82, 69, 84, 85, 82, 78 >>, 106 >>, \* OP_RETURN
  << << 79, 80, 95, 84, 79, 65, 76, 84, 83, 84, 65, 67, 75 >>, 107 >>, \* OP_TOALTSTACK
  << << 79, 80, 95, 70, 82, 79, 77, 65, 76, 84, 83, 84, 65, 67, 75 >>, 108 >>, \* OP_FROMALTSTACK
  << << 79, 80, 95, 50, 68, 82, 79, 80 >>, 109 >>, \* OP_2DROP
  << << 79, 80, 95, 50, 68, 85, 80 >>, 110 >>, \* OP_2DUP
  << << 79, 80, 95, 51, 68, 85, 80 >>, 111 >>, \* OP_3DUP
  << << 79, 80, 95, 50, 79, 86, 69, 82 >>, 112 >>, \* OP_2OVER
  << << 79, 80, 95, 50, 82, 79, 84 >>, 113 >>, \* OP_2ROT
  << << 79, 80, 95, 50, 83, 87, 65, 80 >>, 114 >>, \* OP_2SWAP
  << << 79, 80, 95, 73, 70, 68, 85, 80 >>, 115 >>, \* OP_IFDUP
  << << 79, 80, 95, 68, 69, 80, 84, 72 >>, 116 >>, \* OP_DEPTH
  << << 79, 80, 95, 68, 82, 79, 80 >>, 117 >>, \* OP_DROP
  << << 79, 80, 95, 68, 85, 80 >>, 118 >>, \* OP_DUP
  << << 79, 80, 95, 78, 73, 80 >>, 119 >>, \* OP_NIP
  << << 79, 80, 95, 79, 86, 69, 82 >>, 120 >>, \* OP_OVER
  << << 79, 80, 95, 80, 73, 67, 75 >>, 121 >>, \* OP_PICK
  << << 79, 80, 95, 82, 79, 76, 76 >>, 122 >>, \* OP_ROLL
  << << 79, 80, 95, 82, 79, 84 >>, 123 >>, \* OP_ROT
  << << 79, 80, 95, 83, 87, 65, 80 >>, 124 >>, \* OP_SWAP
  << << 79, 80, 95, 84, 85, 67, 75 >>, 125 >>, \* OP_TUCK
  << << 79, 80, 95, 67, 65, 84 >>, 126 >>, \* OP_CAT
  << << 79, 80, 95, 83, 85, 66, 83, 84, 82 >>, 127 >>, \* OP_SUBSTR
  << << 79, 80, 95, 76, 69, 70, 84 >>, 128 >>, \* OP_LEFT
  << << 79, 80, 95, 82, 73, 71, 72, 84 >>, 129 >>, \* OP_RIGHT
  << << 79, 80, 95, 83, 73, 90, 69 >>, 130 >>, \* OP_SIZE
  << << 79, 80, 95, 73, 78, 86, 69, 82, 84 >>, 131 >>, \* OP_INVERT
  << << 79, 80, 95, 65, 78, 68 >>, 132 >>, \* OP_AND
  << << 79, 80, 95, 79, 82 >>, 133 >>, \* OP_OR
  << << 79, 80, 95, 88, 79, 82 >>, 134 >>, \* OP_XOR
  << << 79, 80, 95, 69, 81, 85, 65, 76 >>, 135 >>, \* OP_EQUAL
  << << 79, 80, 95, 69, 81, 85, 65, 76, 86, 69, 82, 73, 70, 89 >>, 136 >>, \* OP_EQUALVERIFY
  << << 79, 80, 95, 82, 69, 83, 69, 82, 86, 69, 68, 49 >>, 137 >>, \* OP_RESERVED1
  << << 79, 80, 95, 82, 69, 83, 69, 82, 86, 69, 68, 50 >>, 138 >>, \* OP_RESERVED2
  << << 79, 80, 95, 49, 65, 68, 68 >>, 139 >>, \* OP_1ADD
  << << 79, 80, 95, 49, 83, 85, 66 >>, 140 >>, \* OP_1SUB
  << << 79, 80, 95, 50, 77, 85, 76 >>, 141 >>, \* OP_2MUL
  << << 79, 80, 95, 50, 68, 73, 86 >>, 142 >>, \* OP_2DIV
  << << 79, 80, 95, 78, 69, 71, 65, 84, 69 >>, 143 >>, \* OP_NEGATE
  << << 79, 80, 95, 65, 66, 83 >>, 144 >>, \* OP_ABS
  << << 79, 80, 95, 78, 79, 84 >>, 145 >>, \* OP_NOT
  << << 79, 80, 95, 48, 78, 79, 84, 69, 81, 85, 65, 76 >>, 146 >>, \* OP_0NOTEQUAL
  << << 79, 80, 95, 65, 68, 68 >>, 147 >>, \* OP_ADD
  << << 79, 80, 95, 83, 85, 66 >>, 148 >>, \* OP_SUB
  << << 79, 80, 95, 77, 85, 76 >>, 149 >>, \* OP_MUL
  << << 79, 80, 95, 68, 73, 86 >>, 150 >>, \* OP_DIV
  << << 79, 80, 95, 77, 79, 68 >>, 151 >>, \* OP_MOD
  << << 79, 80, 95, 76, 83, 72, 73, 70, 84 >>, 152 >>, \* OP_LSHIFT
  << << 79, 80, 95, 82, 83, 72, 73, 70, 84 >>, 153 >>, \* OP_RSHIFT
  << << 79, 80, 95, 66, 79, 79, 76, 65, 78, 68 >>, 154 >>, \* OP_BOOLAND
  << << 79, 80, 95, 66, 79, 79, 76, 79, 82 >>, 155 >>, \* OP_BOOLOR
  << << 79, 80, 95, 78, 85, 77, 69, 81, 85, 65, 76 >>, 156 >>, \* OP_NUMEQUAL
  << << 79, 80, 95, 78, 85, 77, 69, 81, 85, 65, 76, 86, 69, 82, 73, 70, 89 >>, 157 >>, \* OP_NUMEQUALVERIFY
  << << 79, 80, 95, 78, 85, 77, 78, 79, 84, 69, 81, 85, 65, 76 >>, 158 >>, \* OP_NUMNOTEQUAL
  << << 79, 80, 95, 76, 69, 83, 83, 84, 72, 65, 78 >>, 159 >>, \* OP_LESSTHAN
  << << 79, 80, 95, 71, 82, 69, 65, 84, 69, 82, 84, 72, 65, 78 >>, 160 >>, \* OP_GREATERTHAN
  << << 79, 80, 95, 76, 69, 83, 83, 84, 72, 65, 78, 79, 82, 69, 81, 85, 65, 76 >>, 161 >>, \* OP_LESSTHANOREQUAL
  << << 79, 80, 95, 71, 82, 69, 65, 84, 69, 82, 84, 72, 65, 78, 79, 82, 69, 81, 85, 65, 76 >>, 162 >>, \* OP_GREATERTHANOREQUAL
  << << 79, 80, 95, 77, 73, 78 >>, 163 >>, \* OP_MIN
  << << 79, 80, 95, 77, 65, 88 >>, 164 >>, \* OP_MAX
  << << 79, 80, 95, 87, 73, 84, 72, 73, 78 >>, 165 >>, \* OP_WITHIN
  << << 79, 80, 95, 82, 73, 80, 69, 77, 68, 49, 54, 48 >>, 166 >>, \* OP_RIPEMD160
  << << 79, 80, 95, 83, 72, 65, 49 >>, 167 >>, \* OP_SHA1
  << << 79, 80, 95, 83, 72, 65, 50, 53, 54 >>, 168 >>, \* OP_SHA256
  << << 79, 80, 95, 72, 65, 83, 72, 49, 54, 48 >>, 169 >>, \* OP_HASH160
  << << 79, 80, 95, 72, 65, 83, 72, 50, 53, 54 >>, 170 >>, \* OP_HASH256
  << << 79, 80, 95, 67, 79, 68, 69, 83, 69, 80, 65, 82, 65, 84, 79, 82 >>, 171 >>, \* OP_CODESEPARATOR
  << << 79, 80, 95, 67, 72, 69, 67, 75, 83, 73, 71 >>, 172 >>, \* OP_CHECKSIG
  << << 79, 80, 95, 67, 72, 69, 67, 75, 83, 73, 71, 86, 69, 82, 73, 70, 89 >>, 173 >>, \* OP_CHECKSIGVERIFY
  << << 79, 80, 95, 67, 72, 69, 67, 75, 77, 85, 76, 84, 73, 83, 73, 71 >>, 174 >>, \* OP_CHECKMULTISIG
  << << 79, 80, 95, 67, 72, 69, 67, 75, 77, 85, 76, 84, 73, 83, 73, 71, 86, 69, 82, 73, 70, 89 >>, 175 >>, \* OP_CHECKMULTISIGVERIFY
  << << 79, 80, 95, 78, 79, 80, 49 >>, 176 >>, \* OP_NOP1
  << << 79, 80, 95, 67, 72, 69, 67, 75, 76, 79, 67, 75, 84, 73, 77, 69, 86, 69, 82, 73, 70, 89 >>, 177 >>, \* OP_CHECKLOCKTIMEVERIFY
  << << 79, 80, 95, 78, 79, 80, 51 >>, 178 >>, \* OP_NOP3
  << << 79, 80, 95, 78, 79, 80, 52 >>, 179 >>, \* OP_NOP4
  << << 79, 80, 95, 78, 79, 80, 53 >>, 180 >>, \* OP_NOP5
  << << 79, 80, 95, 78, 79, 80, 54 >>, 181 >>, \* OP_NOP6
  << << 79, 80, 95, 78, 79, 80, 55 >>, 182 >>, \* OP_NOP7
  << << 79, 80, 95, 78, 79, 80, 56 >>, 183 >>, \* OP_NOP8
  << << 79, 80, 95, 78, 79, 80, 57 >>, 184 >>, \* OP_NOP9
  << << 79, 80, 95, 78, 79, 80, 49, 48 >>, 185 >>, \* OP_NOP10
  << << 79, 80, 95, 80, 85, 66, 75, 69, 89, 72, 65, 83, 72 >>, 253 >>, \* OP_PUBKEYHASH
  << << 79, 80, 95, 80, 85, 66, 75, 69, 89 >>, 254 >>, \* OP_PUBKEY
  << << 79, 80, 95, 73, 78, 86, 65, 76, 73, 68, 79, 80, 67, 79, 68, 69 >>, 255 >> \* OP_INVALIDOPCODE
}
OpAliases == { << 79, 80, 95, 70, 65, 76, 83, 69 >>, << 79, 80, 95, 84, 82, 85, 69 >> }
=============================================================================
