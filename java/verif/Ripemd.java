package verif;

/** RIPEMD-160 (Dobbertin, Bosselaers, Preneel 1996); Java's own library has none. */
final class Ripemd {
    private static final int[] R1 = {
        0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
        3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
        4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 };
    private static final int[] R2 = {
        5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
        15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
        12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 };
    private static final int[] S1 = {
        11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
        11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
        9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 };
    private static final int[] S2 = {
        8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
        9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
        8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 };
    private static final int[] K1 = { 0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e };
    private static final int[] K2 = { 0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0 };

    private static int f(final int j, final int x, final int y, final int z) {
        switch (j) {
            case 0: return x ^ y ^ z;
            case 1: return (x & y) | (~x & z);
            case 2: return (x | ~y) ^ z;
            case 3: return (x & z) | (y & ~z);
            default: return x ^ (y | ~z);
        }
    }

    static byte[] digest(final byte[] m) {
        final int len = ((m.length + 8) / 64 + 1) * 64;
        final byte[] p = java.util.Arrays.copyOf(m, len);
        p[m.length] = (byte) 0x80;
        final long bits = 8L * m.length;
        for (int i = 0; i < 8; i++) p[len - 8 + i] = (byte) (bits >>> (8 * i));
        int h0 = 0x67452301, h1 = 0xefcdab89, h2 = 0x98badcfe, h3 = 0x10325476, h4 = 0xc3d2e1f0;
        for (int o = 0; o < len; o += 64) {
            final int[] x = new int[16];
            for (int i = 0; i < 16; i++)
                x[i] = (p[o+4*i]&255) | (p[o+4*i+1]&255)<<8 | (p[o+4*i+2]&255)<<16 | (p[o+4*i+3]&255)<<24;
            int a = h0, b = h1, c = h2, d = h3, e = h4, A = h0, B = h1, C = h2, D = h3, E = h4;
            for (int j = 0; j < 80; j++) {
                int t = Integer.rotateLeft(a + f(j/16, b, c, d) + x[R1[j]] + K1[j/16], S1[j]) + e;
                a = e; e = d; d = Integer.rotateLeft(c, 10); c = b; b = t;
                t = Integer.rotateLeft(A + f(4 - j/16, B, C, D) + x[R2[j]] + K2[j/16], S2[j]) + E;
                A = E; E = D; D = Integer.rotateLeft(C, 10); C = B; B = t;
            }
            final int t = h1 + c + D;
            h1 = h2 + d + E; h2 = h3 + e + A; h3 = h4 + a + B; h4 = h0 + b + C; h0 = t;
        }
        final byte[] out = new byte[20];
        final int[] h = { h0, h1, h2, h3, h4 };
        for (int i = 0; i < 20; i++) out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        return out;
    }
}
