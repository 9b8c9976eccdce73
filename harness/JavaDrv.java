// Carries out histories of operations with the Java bindings; see C21.cpp.
//
// One history per input line, words separated by blanks (data in hexadecimal,
// "-" for none); the reply is what happened, as text, ended by a line holding a
// dot.
import com.lightboxtechnologies.lightgrep.*;
import java.io.*;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.*;

public class JavaDrv {
  static String[] w;
  static int at;
  static StringBuilder out;

  static String word() { return w[at++]; }
  static int num() { return Integer.parseInt(word()); }
  static long big() { return Long.parseLong(word()); }
  static byte[] data() {
    final String s = word();
    if (s.equals("-")) return new byte[0];
    final byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }
  static String text() { return new String(data(), StandardCharsets.UTF_8); }
  static String hex(String s) {
    final StringBuilder b = new StringBuilder();
    for (byte x : s.getBytes(StandardCharsets.UTF_8)) b.append(String.format("%02X", x));
    return b.toString();
  }
  static void say(String s) { out.append(s.replace('\n', ' ')).append('\n'); }
  static String name(Throwable t) { return t.getClass().getSimpleName(); }

  interface Act { void run() throws Exception; }
  static boolean tried(String what, Act a) {
    try { a.run(); return true; }
    catch (RuntimeException | ProgramException | UnsupportedEncodingException | KeywordException e) {
      say(what + " raised " + name(e) + " " + hex(e.getMessage() == null ? "" : e.getMessage()));
      return false;
    }
    catch (Exception e) { say("unexpected " + e); return false; }
  }

  static class Enough extends RuntimeException {}
  static class Collect implements HitCallback {
    int left;
    Collect(int n) { left = n; }
    public void callback(SearchHit h) {
      say("hit " + h.Start + " " + h.End + " " + h.KeywordIndex);
      if (--left == 0) throw new Enough();
    }
  }

  // the data in the buffer of some kind, at some position
  static byte[] arr; static int off; static ByteBuffer buf;
  static void place(byte[] d, int kind, int lead, int trail) {
    arr = null; buf = null; off = 0;
    if (kind <= 1) {
      off = kind == 0 ? 0 : lead;
      arr = new byte[off + d.length + (kind == 0 ? 0 : trail)];
      Arrays.fill(arr, (byte) 'a');
      System.arraycopy(d, 0, arr, off, d.length);
      return;
    }
    final int n = lead + d.length + trail;
    ByteBuffer b = kind == 2 ? ByteBuffer.allocateDirect(n) : ByteBuffer.allocate(n);
    for (int i = 0; i < n; ++i) b.put(i, (byte) 'a');
    for (int i = 0; i < d.length; ++i) b.put(lead + i, d[i]);
    if (lead > 2) { b.position(lead / 2); b = b.slice(); b.position(lead - lead / 2); }
    else b.position(lead);
    buf = kind == 4 ? b.asReadOnlyBuffer() : b;
  }
  static void unmoved(int pos) { if (buf != null && buf.position() != pos) say("position moved from " + pos + " to " + buf.position()); }

  static void info(String what, int i, PatternInfo p, int user) {
    say("info " + what + " " + i + " " + hex(p.Pattern) + " " + p.EncodingChain + " " + p.UserIndex + " " + user);
  }

  static KeyOptions opts(int f) {
    final KeyOptions o = new KeyOptions();
    o.FixedString = (f & 1) != 0; o.CaseInsensitive = (f & 2) != 0; o.UnicodeMode = (f & 4) != 0;
    return o;
  }

  static void history() throws Exception {
    final PatternHandle pat = new PatternHandle();
    final FSMHandle fsm = new FSMHandle(num(), num());
    final int n = num();
    for (int i = 0; i < n; ++i) {
      final String p = text(), e = text();
      final int f = num(), u = num();
      tried("add", () -> { pat.parsePattern(p, opts(f)); say("add " + fsm.addPattern(pat, e, u)); });
    }
    final int count = fsm.count();
    say("count " + count);
    for (int i = 0; i < count; ++i) info("fsm", i, fsm.getPatternInfo(i), fsm.getUserIndex(i));
    tried("index", () -> fsm.getPatternInfo(count));
    tried("index", () -> fsm.getUserIndex(-1));
    final int set = num(), to = num();
    if (set < count) { fsm.setUserIndex(set, to); say("user " + fsm.getUserIndex(set)); }
    else tried("index", () -> fsm.setUserIndex(set, to));
    final boolean early = num() != 0;
    final ProgramOptions po = new ProgramOptions();
    po.Determinize = num() != 0;
    final int image = num(), lead = num(), trail = num();
    ProgramHandle made = new ProgramHandle(0);
    if (!tried("compile", () -> made.compile(fsm, po))) return;
    tried("again", () -> made.compile(fsm, po));
    if (early) {
      fsm.destroy(); pat.destroy(); pat.close();
      tried("closed", () -> fsm.count());
      tried("closed", () -> pat.parsePattern("a", opts(0)));
      tried("closed", () -> made.compile(fsm, po));
    }
    ProgramHandle prog = made;
    if (image != 0) {
      final int size = made.size();
      final byte[] b = new byte[lead + size + trail];
      tried("small", () -> made.write(new byte[size - 1], 0));
      tried("small", () -> made.write(b, lead + trail + 1));
      Arrays.fill(b, (byte) 0x5A);
      made.write(b, lead);
      for (int i = 0; i < lead; ++i) if (b[i] != 0x5A) say("written before the offset");
      for (int i = lead + size; i < b.length; ++i) if (b[i] != 0x5A) say("written past the size");
      made.destroy();
      tried("closed", () -> made.count());
      tried("small", () -> ProgramHandle.read(b, lead, size + trail + 1));
      prog = ProgramHandle.read(b, lead, size);
      if (image == 2) { Arrays.fill(b, (byte) 0xA5); System.gc(); }
    }
    final ProgramHandle p = prog;
    final int pc = p.count();
    say("patterns " + pc);
    for (int i = 0; i < pc; ++i) info("prog", i, p.getPatternInfo(i), p.getUserIndex(i));
    tried("index", () -> p.getPatternInfo(pc));
    final ContextHandle c = p.createContext(new ContextOptions());
    final DecoderHandle dec = new DecoderHandle();
    final int ops = num();
    for (int i = 0; i < ops; ++i) {
      final String op = word();
      final byte[] d = data();
      final long at = big();
      final int kind = num(), l = num(), t = num(), stop = num();
      place(d, kind, l, t);
      final int pos = buf == null ? 0 : buf.position();
      final Collect cb = new Collect(stop);
      try {
        switch (op) {
        case "search": say("ret " + (buf == null ? c.search(arr, off, d.length, at, cb) : c.search(buf, d.length, at, cb))); break;
        case "starts": if (buf == null) c.startsWith(arr, off, d.length, at, cb); else c.startsWith(buf, d.length, at, cb); break;
        case "closeout": c.closeoutSearch(cb); break;
        case "reset": c.reset(); break;
        case "context": {
          final int wn = num(), rep = num(), k = num();
          for (int j = 0; j < k; ++j) {
            final long b = big(), e = big();
            final String enc = text();
            tried("context", () -> {
              final HitContext h = buf == null ? LGUtil.getHitContext(dec, arr, off, d.length, at, b, e, enc, wn, rep) : LGUtil.getHitContext(dec, buf, d.length, at, b, e, enc, wn, rep);
              say("context " + h.Begin + " " + h.End + " " + h.HitBegin + " " + h.HitEnd + " " + h.Bad + " " + hex(h.Decoded));
            });
          }
          break; }
        case "bad": {                                        // arguments out of bounds
          final int x = 1 + l;
          if (buf == null) {
            tried("bad", () -> c.search(arr, off, arr.length - off + x, at, cb));
            tried("bad", () -> c.search(arr, -x, d.length, at, cb));
            tried("bad", () -> c.search(arr, arr.length + x, 0, at, cb));
            tried("bad", () -> c.startsWith(arr, off, -x, at, cb));
            tried("bad", () -> c.startsWith(arr, off + x, arr.length - off, at, cb));
            tried("bad", () -> c.search(arr, off, d.length, -x, cb));
            tried("bad", () -> c.search(arr, off, d.length, at, null));
          }
          else {
            tried("bad", () -> c.search(buf, buf.remaining() + x, at, cb));
            tried("bad", () -> c.startsWith(buf, buf.remaining() + x, at, cb));
            tried("bad", () -> c.search(buf, -x, at, cb));
            tried("bad", () -> c.startsWith(buf, d.length, -x, cb));
            tried("bad", () -> c.search(buf, d.length, -x, cb));
            tried("bad", () -> c.startsWith((ByteBuffer) null, d.length, at, cb));
            tried("bad", () -> c.startsWith(buf, d.length, at, null));
          }
          break; }
        }
      }
      catch (Enough e) { say("enough"); c.reset(); }
      unmoved(pos);
    }
    dec.destroy();
    tried("closed", () -> LGUtil.getHitContext(dec, new byte[1], 0, 1, 0, 0, 1, "UTF-8", 1, 32));
    c.destroy(); c.close();
    tried("closed", () -> c.reset());
    tried("closed", () -> c.search(new byte[1], 0, 1, 0, new Collect(0)));
    p.destroy(); p.destroy();
    tried("closed", () -> p.size());
    if (!early) { fsm.destroy(); pat.destroy(); }
  }

  // a great many hits in one go, none of them kept
  static void flood() throws Exception {
    final PatternHandle pat = new PatternHandle();
    final FSMHandle fsm = new FSMHandle(1, 1);
    final KeyOptions o = opts(0);
    pat.parsePattern(text(), o);
    fsm.addPattern(pat, "ASCII", 0);
    final ProgramHandle p = new ProgramHandle(0);
    p.compile(fsm, new ProgramOptions());
    final ContextHandle c = p.createContext(new ContextOptions());
    final int per = num(), times = num();
    final byte[] b = new byte[per];
    Arrays.fill(b, (byte) 'a');
    final long[] seen = new long[2];
    final HitCallback cb = h -> { ++seen[0]; seen[1] += h.End; };
    for (int i = 0; i < times; ++i) c.search(b, 0, per, (long) i * per, cb);
    c.closeoutSearch(cb);
    say("seen " + seen[0] + " " + seen[1]);
    c.destroy(); p.destroy(); fsm.destroy(); pat.destroy();
  }

  public static void main(String[] a) throws Exception {
    final BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
    final PrintStream o = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
    String l;
    while ((l = in.readLine()) != null) {
      out = new StringBuilder();
      w = l.split(" "); at = 0;
      try { if (w[0].equals("flood")) { ++at; flood(); } else history(); } catch (Throwable t) { say("unexpected " + t); }
      o.print(out); o.print(".\n"); o.flush();
    }
  }
}
