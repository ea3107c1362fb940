// Executes one command per line on the Java API; prints one line per command.
import com.ibm.onnxmlir.*;
import java.io.*;
import java.nio.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

public class Driver {
  static HashMap<Integer, OMTensor> slots = new HashMap<>();

  static byte[] unhex(String s) {
    if (s.equals("-")) return new byte[0];
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++)
      b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }

  static String hex(byte[] b) {
    if (b == null) return "null";
    StringBuilder s = new StringBuilder();
    for (byte x : b) s.append(String.format("%02x", x));
    return s.length() == 0 ? "-" : s.toString();
  }

  static long[] longs(String s) {
    if (s.equals("-")) return new long[0];
    String[] p = s.split(",");
    long[] r = new long[p.length];
    for (int i = 0; i < r.length; i++) r[i] = Long.parseLong(p[i]);
    return r;
  }

  static String str(long[] a) {
    if (a == null) return "null";
    if (a.length == 0) return "-";
    StringBuilder s = new StringBuilder();
    for (int i = 0; i < a.length; i++) s.append(i > 0 ? "," : "").append(a[i]);
    return s.toString();
  }

  static ByteBuffer bb(byte[] b) { return ByteBuffer.wrap(b).order(ByteOrder.LITTLE_ENDIAN); }

  static short[] shorts(byte[] b) { short[] r = new short[b.length / 2]; bb(b).asShortBuffer().get(r); return r; }
  static int[] ints(byte[] b) { int[] r = new int[b.length / 4]; bb(b).asIntBuffer().get(r); return r; }
  static long[] lngs(byte[] b) { long[] r = new long[b.length / 8]; bb(b).asLongBuffer().get(r); return r; }
  static float[] floats(byte[] b) {
    int[] i = ints(b); float[] r = new float[i.length];
    for (int k = 0; k < r.length; k++) r[k] = Float.intBitsToFloat(i[k]);
    return r;
  }
  static double[] doubles(byte[] b) {
    long[] i = lngs(b); double[] r = new double[i.length];
    for (int k = 0; k < r.length; k++) r[k] = Double.longBitsToDouble(i[k]);
    return r;
  }

  static String get(OMTensor t, char k) {
    ByteBuffer o;
    switch (k) {
    case 'b': { byte[] a = t.getByteData(); String r = hex(a); Arrays.fill(a, (byte)77); return r; }
    case 'z': { byte[] a = t.getBoolData(); String r = hex(a); Arrays.fill(a, (byte)77); return r; }
    case 's': { short[] a = t.getShortData(); o = bb(new byte[a.length * 2]); for (short x : a) o.putShort(x); Arrays.fill(a, (short)77); break; }
    case 'i': { int[] a = t.getIntData(); o = bb(new byte[a.length * 4]); for (int x : a) o.putInt(x); Arrays.fill(a, (int)77); break; }
    case 'l': { long[] a = t.getLongData(); o = bb(new byte[a.length * 8]); for (long x : a) o.putLong(x); Arrays.fill(a, (long)77); break; }
    case 'f': { float[] a = t.getFloatData(); o = bb(new byte[a.length * 4]); for (float x : a) o.putInt(Float.floatToRawIntBits(x)); break; }
    default: { double[] a = t.getDoubleData(); o = bb(new byte[a.length * 8]); for (double x : a) o.putLong(Double.doubleToRawLongBits(x)); }
    }
    return hex(o.array());
  }

  // The arrays given and returned are the caller's: writing to them later
  // changes no tensor.
  static void set(OMTensor t, char k, byte[] d) {
    switch (k) {
    case 'b': t.setByteData(d); Arrays.fill(d, (byte)85); break;
    case 'z': t.setBoolData(d); Arrays.fill(d, (byte)85); break;
    case 's': { short[] a = shorts(d); t.setShortData(a); Arrays.fill(a, (short)85); break; }
    case 'i': { int[] a = ints(d); t.setIntData(a); Arrays.fill(a, 85); break; }
    case 'l': { long[] a = lngs(d); t.setLongData(a); Arrays.fill(a, 85); break; }
    case 'f': { float[] a = floats(d); t.setFloatData(a); Arrays.fill(a, 85); break; }
    default: { double[] a = doubles(d); t.setDoubleData(a); Arrays.fill(a, 85); }
    }
  }

  static OMTensor make(char k, byte[] d, long[] sh) {
    OMTensor t;
    switch (k) {
    case 'b': t = new OMTensor(d, sh); Arrays.fill(d, (byte)85); break;
    case 'B': t = new OMTensor(d, sh, false); Arrays.fill(d, (byte)85); break;
    case 'z': t = new OMTensor(d, sh, true); Arrays.fill(d, (byte)85); break;
    case 's': { short[] a = shorts(d); t = new OMTensor(a, sh); Arrays.fill(a, (short)85); break; }
    case 'i': { int[] a = ints(d); t = new OMTensor(a, sh); Arrays.fill(a, 85); break; }
    case 'l': { long[] a = lngs(d); t = new OMTensor(a, sh); Arrays.fill(a, 85); break; }
    case 'f': { float[] a = floats(d); t = new OMTensor(a, sh); Arrays.fill(a, 85); break; }
    default: { double[] a = doubles(d); t = new OMTensor(a, sh); Arrays.fill(a, 85); }
    }
    Arrays.fill(sh, 77);
    return t;
  }

  // A tensor on a buffer of some byte order, as subclasses make them.
  static class Buf extends OMTensor {
    Buf(ByteBuffer d, long[] sh, ByteOrder o, int t) { super(d, sh, o, t); }
  }
  static OMTensor buf(byte[] d, long[] sh, char o, int t) {
    ByteBuffer b = ByteBuffer.allocateDirect(d.length);
    b.slice().put(d);
    OMTensor r = new Buf(b, sh, o == 'B' ? ByteOrder.BIG_ENDIAN : o == 'L' ? ByteOrder.LITTLE_ENDIAN : null, t);
    Arrays.fill(sh, 77);
    return r;
  }

  static String text(String s) { return s == null ? "null" : hex(s.getBytes(StandardCharsets.UTF_8)); }
  static String name(String h) { return new String(unhex(h), StandardCharsets.UTF_8); }

  static String exec(String[] a) {
    OMTensor t = a.length > 1 && a[0].charAt(0) != '*' ? slots.get(Integer.parseInt(a[1])) : null;
    switch (a[0]) {
    case "new": slots.put(Integer.parseInt(a[1]), make(a[2].charAt(0), unhex(a[3]), longs(a[4]))); return "ok";
    case "newbuf": slots.put(Integer.parseInt(a[1]), buf(unhex(a[2]), longs(a[3]), a[4].charAt(0), Integer.parseInt(a[5]))); return "ok";
    case "set": set(t, a[2].charAt(0), unhex(a[3])); return "ok";
    case "get": get(t, a[2].charAt(0)); return get(t, a[2].charAt(0));
    case "shape": return str(t.getShape());
    case "strides": return str(t.getStrides());
    case "dtype": return "" + t.getDataType();
    case "rank": return "" + t.getRank();
    case "elems": return "" + t.getNumElems();
    case "size": return "" + t.getBufferSize();
    case "setshape": t.setShape(longs(a[2])); return "ok";
    case "setstrides": t.setStrides(longs(a[2])); return "ok";
    case "setdtype": t.setDataType(Integer.parseInt(a[2])); return "ok";
    case "*run": {
      long[] in = longs(a[1]);
      OMTensor[] ts = new OMTensor[in.length];
      for (int i = 0; i < in.length; i++) ts[i] = slots.get((int)in[i]);
      OMTensorList l = new OMTensorList(ts);
      OMTensorList r = OMModel.mainGraph(l);
      if (r == null) return "null";
      OMTensor[] o = r.getOmtArray();
      int base = Integer.parseInt(a[2]);
      for (int i = 0; i < o.length; i++) {
        if (o[i] != r.getOmtByIndex(i)) return "index " + i;
        slots.put(base + i, o[i]);
      }
      return "" + o.length;
    }
    case "*runthreads": {
      // The same inputs from several threads, results to slots base + n*k.
      final long[] in = longs(a[1]);
      final int n = Integer.parseInt(a[3]), base = Integer.parseInt(a[2]);
      final OMTensorList[] res = new OMTensorList[n];
      Thread[] th = new Thread[n];
      for (int k = 0; k < n; k++) {
        final int kk = k;
        th[k] = new Thread(() -> {
          OMTensor[] ts = new OMTensor[in.length];
          for (int i = 0; i < in.length; i++) ts[i] = slots.get((int)in[i]);
          for (int r = 0; r < 5; r++) res[kk] = OMModel.mainGraph(new OMTensorList(ts));
        });
      }
      for (Thread x : th) x.start();
      try { for (Thread x : th) x.join(); } catch (InterruptedException e) { return "interrupted"; }
      int c = res[0] == null ? 0 : res[0].getOmtArray().length;
      for (int k = 0; k < n; k++) {
        if (res[k] == null || res[k].getOmtArray().length != c) return "null";
        for (int i = 0; i < c; i++) slots.put(base + k * c + i, res[k].getOmtByIndex(i));
      }
      return "" + c;
    }
    case "*eps": {
      String[] e = OMModel.queryEntryPoints();
      StringBuilder s = new StringBuilder();
      for (String x : e) s.append(s.length() > 0 ? "," : "").append(text(x));
      return s.toString();
    }
    case "*isig": return text(a.length > 1 ? OMModel.inputSignature(name(a[1])) : OMModel.inputSignature());
    case "*osig": return text(a.length > 1 ? OMModel.outputSignature(name(a[1])) : OMModel.outputSignature());
    case "*cinfo": return text(OMModel.compilationInfo());
    case "*drop": slots.clear(); return "ok";
    case "*gc": System.gc(); return "ok";
    }
    return "?";
  }

  public static void main(String[] x) throws Exception {
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false);
    System.setOut(System.err);
    String s;
    while ((s = in.readLine()) != null) {
      String r;
      try { r = exec(s.split(" ")); }
      catch (Throwable e) { r = "!" + e.getClass().getSimpleName() + " " + e.getMessage(); }
      out.println(r.replace('\n', ' '));
      out.flush();
    }
  }
}
