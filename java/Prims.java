import java.math.BigInteger;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.value.impl.*;

/**
 * Byte-string and integer primitives for the TLA+ specifications (module Prims).
 * Byte strings are lowercase hex strings. Big integers are decimal strings.
 * Everything here is a generic primitive; the system's structure is in TLA+.
 */
public class Prims {
    // ---------- blake3 (single- and multi-chunk, default 32 byte output) ----------
    static final int[] IV = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
    static final int[] PERM = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
    static final int CHUNK_START = 1, CHUNK_END = 2, PARENT = 4, ROOT = 8;

    static void g(int[] s, int a, int b, int c, int d, int x, int y) {
        s[a] = s[a] + s[b] + x; s[d] = Integer.rotateRight(s[d] ^ s[a], 16);
        s[c] = s[c] + s[d]; s[b] = Integer.rotateRight(s[b] ^ s[c], 12);
        s[a] = s[a] + s[b] + y; s[d] = Integer.rotateRight(s[d] ^ s[a], 8);
        s[c] = s[c] + s[d]; s[b] = Integer.rotateRight(s[b] ^ s[c], 7);
    }

    static int[] compress(int[] cv, int[] block, long counter, int len, int flags) {
        int[] s = new int[16];
        System.arraycopy(cv, 0, s, 0, 8);
        System.arraycopy(IV, 0, s, 8, 4);
        s[12] = (int) counter; s[13] = (int) (counter >>> 32); s[14] = len; s[15] = flags;
        int[] m = block.clone();
        for (int r = 0; r < 7; r++) {
            g(s, 0, 4, 8, 12, m[0], m[1]); g(s, 1, 5, 9, 13, m[2], m[3]);
            g(s, 2, 6, 10, 14, m[4], m[5]); g(s, 3, 7, 11, 15, m[6], m[7]);
            g(s, 0, 5, 10, 15, m[8], m[9]); g(s, 1, 6, 11, 12, m[10], m[11]);
            g(s, 2, 7, 8, 13, m[12], m[13]); g(s, 3, 4, 9, 14, m[14], m[15]);
            int[] p = new int[16];
            for (int i = 0; i < 16; i++) p[i] = m[PERM[i]];
            m = p;
        }
        int[] out = new int[8];
        for (int i = 0; i < 8; i++) out[i] = s[i] ^ s[i + 8];
        return out;
    }

    static int[] words(byte[] d, int off, int len) {
        int[] w = new int[16];
        for (int i = 0; i < len; i++) w[i >> 2] |= (d[off + i] & 0xff) << (8 * (i & 3));
        return w;
    }

    static int[] chunk(byte[] d, int off, int len, long counter, boolean root) {
        int[] cv = IV.clone();
        int n = Math.max(1, (len + 63) / 64);
        for (int i = 0; i < n; i++) {
            int bl = Math.min(64, len - 64 * i);
            int f = (i == 0 ? CHUNK_START : 0) | (i == n - 1 ? CHUNK_END | (root ? ROOT : 0) : 0);
            cv = compress(cv, words(d, off + 64 * i, bl), counter, bl, f);
        }
        return cv;
    }

    static int[] subtree(byte[] d, int off, int len, long counter, boolean root) {
        if (len <= 1024) return chunk(d, off, len, counter, root);
        int left = 1024;
        while (left * 2 < len) left *= 2;
        int[] l = subtree(d, off, left, counter, false);
        int[] r = subtree(d, off + left, len - left, counter + left / 1024, false);
        int[] b = new int[16];
        System.arraycopy(l, 0, b, 0, 8);
        System.arraycopy(r, 0, b, 8, 8);
        return compress(IV.clone(), b, 0, 64, PARENT | (root ? ROOT : 0));
    }

    static byte[] blake3(byte[] d) {
        int[] o = subtree(d, 0, d.length, 0, true);
        byte[] r = new byte[32];
        for (int i = 0; i < 32; i++) r[i] = (byte) (o[i >> 2] >>> (8 * (i & 3)));
        return r;
    }

    // ---------- helpers ----------
    static String str(Value v) { return ((StringValue) v).getVal().toString(); }
    static byte[] unhex(String s) {
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4) | Character.digit(s.charAt(2 * i + 1), 16));
        return r;
    }
    static final char[] HEX = "0123456789abcdef".toCharArray();
    static String hex(byte[] b) {
        char[] c = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) { c[2 * i] = HEX[(b[i] >> 4) & 15]; c[2 * i + 1] = HEX[b[i] & 15]; }
        return new String(c);
    }
    static Value s(String x) { return new StringValue(x); }
    static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        return new BigInteger(str(v));
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static TupleValue tup(Value v) {
        Value t = (Value) v.toTuple();
        if (t == null) throw new RuntimeException("expected a sequence: " + v);
        return (TupleValue) t;
    }
    static String cat(Value seq) {
        StringBuilder b = new StringBuilder();
        for (Value e : tup(seq).elems) b.append(str(e));
        return b.toString();
    }

    // ---------- operators ----------
    /** Blake3 of a byte string. */
    public static Value Blake3(Value x) { return s(hex(blake3(unhex(str(x))))); }
    /** Blake3 of the concatenation of a sequence of byte strings. */
    public static Value H(Value seq) { return s(hex(blake3(unhex(cat(seq))))); }
    /** Concatenation of a sequence of byte strings. */
    public static Value Cat(Value seq) { return s(cat(seq)); }
    /** Length in bytes. */
    public static Value BLen(Value x) { return IntValue.gen(str(x).length() / 2); }
    /** Bytes at (0-based) from up to but excluding to. */
    public static Value BSub(Value x, Value from, Value to) {
        return s(str(x).substring(2 * ((IntValue) from).val, 2 * ((IntValue) to).val));
    }
    /** The value of byte i (0-based). */
    public static Value BAt(Value x, Value i) {
        int k = ((IntValue) i).val;
        return IntValue.gen(Integer.parseInt(str(x).substring(2 * k, 2 * k + 2), 16));
    }
    /** Lexicographic order on byte strings: a < b. */
    public static Value BLess(Value a, Value b) { return bool(str(a).compareTo(str(b)) < 0); }
    public static Value BLeq(Value a, Value b) { return bool(str(a).compareTo(str(b)) <= 0); }
    /** Is p a prefix of x (byte strings). */
    public static Value BPrefix(Value p, Value x) { return bool(str(x).startsWith(str(p))); }
    /** n zero bytes. */
    public static Value Zeros(Value n) { return s("00".repeat(((IntValue) n).val)); }
    /** n copies of a byte string. */
    public static Value BRepeat(Value x, Value n) { return s(str(x).repeat(((IntValue) n).val)); }
    /** Big-endian two's complement encoding of an integer in k bytes. */
    public static Value BE(Value n, Value k) { return s(be(big(n), ((IntValue) k).val)); }
    static String be(BigInteger v, int k) {
        if (v.signum() < 0) v = v.add(BigInteger.ONE.shiftLeft(8 * k));
        String h = v.toString(16);
        if (h.length() > 2 * k) throw new RuntimeException("BE overflow " + v + " in " + k);
        return "0".repeat(2 * k - h.length()) + h;
    }
    /** Little-endian encoding. */
    public static Value LEnc(Value n, Value k) {
        String h = be(big(n), ((IntValue) k).val);
        StringBuilder b = new StringBuilder();
        for (int i = h.length() - 2; i >= 0; i -= 2) b.append(h, i, i + 2);
        return s(b.toString());
    }
    /** Unsigned big-endian value of a byte string, as a decimal string. */
    public static Value UnBE(Value x) { return s(str(x).isEmpty() ? "0" : new BigInteger(str(x), 16).toString()); }
    /** LEB128 varint of an unsigned integer. */
    public static Value VarInt(Value n) { return s(varint(big(n))); }
    static String varint(BigInteger v) {
        StringBuilder b = new StringBuilder();
        BigInteger m = BigInteger.valueOf(127);
        do {
            int x = v.and(m).intValue();
            v = v.shiftRight(7);
            if (v.signum() != 0) x |= 128;
            b.append(HEX[x >> 4]).append(HEX[x & 15]);
        } while (v.signum() != 0);
        return b.toString();
    }
    static BigInteger zigzag(BigInteger v) {
        return v.signum() >= 0 ? v.shiftLeft(1) : v.negate().shiftLeft(1).subtract(BigInteger.ONE);
    }
    /** LEB128 varint of a zigzag-encoded signed integer. */
    public static Value VarIntS(Value n) { return s(varint(zigzag(big(n)))); }
    /** bincode "standard, big endian" variable-width unsigned integer. */
    public static Value BinU(Value n) { return s(binu(big(n))); }
    static String binu(BigInteger v) {
        int b = v.bitLength();
        if (v.compareTo(BigInteger.valueOf(251)) < 0) return be(v, 1);
        if (b <= 16) return "fb" + be(v, 2);
        if (b <= 32) return "fc" + be(v, 4);
        if (b <= 64) return "fd" + be(v, 8);
        return "fe" + be(v, 16);
    }
    /** bincode variable-width signed integer (zigzag). */
    public static Value BinI(Value n) { return s(binu(zigzag(big(n)))); }

    // big integers as decimal strings
    public static Value IAdd(Value a, Value b) { return s(big(a).add(big(b)).toString()); }
    public static Value ISub(Value a, Value b) { return s(big(a).subtract(big(b)).toString()); }
    public static Value IMul(Value a, Value b) { return s(big(a).multiply(big(b)).toString()); }
    public static Value IDiv(Value a, Value b) { return s(big(a).divide(big(b)).toString()); }
    public static Value IPow2(Value k) { return s(BigInteger.ONE.shiftLeft(((IntValue) k).val).toString()); }
    public static Value ILess(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
    public static Value ILeq(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
    public static Value IEq(Value a, Value b) { return bool(big(a).equals(big(b))); }
    public static Value IMin(Value a, Value b) { return s(big(a).min(big(b)).toString()); }
    public static Value IMax(Value a, Value b) { return s(big(a).max(big(b)).toString()); }
    /** Sum of a sequence of integers. */
    public static Value ISum(Value seq) {
        BigInteger r = BigInteger.ZERO;
        for (Value e : tup(seq).elems) r = r.add(big(e));
        return s(r.toString());
    }
    /** Decimal string of an Int; identity on decimal strings. */
    public static Value Dec(Value a) { return s(big(a).toString()); }
    /** Int of a decimal string that fits. */
    public static Value ToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
    /** UTF-8 bytes of a string. */
    public static Value Utf8(Value a) { return s(hex(str(a).getBytes(StandardCharsets.UTF_8))); }
    /** Sort a sequence of byte strings ascending. */
    public static Value BSort(Value seq) {
        String[] a = Arrays.stream(tup(seq).elems).map(Prims::str).sorted().toArray(String[]::new);
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = s(a[i]);
        return new TupleValue(r);
    }
    /** The ascending sequence of a set of byte strings. */
    public static Value BSetToSeq(Value set) {
        SetEnumValue e = (SetEnumValue) ((Value) set).toSetEnum();
        e.normalize();
        String[] a = new String[e.elems.size()];
        for (int i = 0; i < a.length; i++) a[i] = str(e.elems.elementAt(i));
        Arrays.sort(a);
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = s(a[i]);
        return new TupleValue(r);
    }
    // ---------- emitting schedules ----------
    static Map<String, PrintStream> outs = new HashMap<>();
    /** Append a line to a file; always TRUE. */
    public static synchronized Value Emit(Value file, Value line) throws IOException {
        String f = str(file);
        PrintStream p = outs.get(f);
        if (p == null) { p = new PrintStream(new FileOutputStream(f, true), true, "UTF-8"); outs.put(f, p); }
        p.println(str(line));
        return BoolValue.ValTrue;
    }
    /** A system property / environment variable given to the run, or the default. */
    public static Value Env(Value name, Value dflt) {
        String v = System.getenv(str(name));
        return v == null ? dflt : s(v);
    }
    public static Value EnvInt(Value name, Value dflt) {
        String v = System.getenv(str(name));
        return v == null ? dflt : IntValue.gen(Integer.parseInt(v));
    }

    public static void main(String[] a) { for (String x : a) System.out.println(hex(blake3(unhex(x)))); }
}
