// Runs a program's main() again and again in one virtual machine: requests (length, text) on standard input, answers (status, output, error output).
// Driver CLASS [DIR]: with DIR, a request is written to DIR/plan.ple, the program is called with -e and that file, and the answer's output is what it left in DIR/plan.epx. status is what the process would have ended with (0, 1 for an exception, or what it passed to exit).
import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;

public class Driver {
    static class Exit extends SecurityException { final int status; Exit(int s) { status = s; } }
    static volatile boolean running = false;
    @SuppressWarnings("removal")
    static void trapExit() {
        System.setSecurityManager(new SecurityManager() {
            @Override public void checkExit(int s) { if (running) throw new Exit(s); }
            @Override public void checkPermission(java.security.Permission p) { }
            @Override public void checkPermission(java.security.Permission p, Object c) { } });
    }
    public static void main(String[] args) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(System.in));
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out)));
        PrintStream err = System.err;
        System.setErr(new PrintStream(new ByteArrayOutputStream())); // the warning about security managers
        trapExit();
        Method m = Class.forName(args[0]).getMethod("main", String[].class);
        for (;;) {
            int n;
            try { n = in.readInt(); } catch (EOFException e) { return; }
            byte[] b = new byte[n]; in.readFully(b);
            ByteArrayOutputStream o = new ByteArrayOutputStream(), e = new ByteArrayOutputStream();
            System.setIn(new ByteArrayInputStream(b)); System.setOut(new PrintStream(o)); System.setErr(new PrintStream(e));
            String[] arg = new String[0]; File src = null, res = null;
            if (args.length > 1) { src = new File(args[1], "plan.ple"); res = new File(args[1], "plan.epx"); res.delete(); try (FileOutputStream f = new FileOutputStream(src)) { f.write(b); } arg = new String[]{"-e", src.getPath()}; }
            int status = 0; running = true;
            try { m.invoke(null, (Object) arg); }
            catch (InvocationTargetException x) { Throwable c = x.getCause(); if (c instanceof Exit) status = ((Exit) c).status; else { status = 1; c.printStackTrace(System.err); } }
            running = false; System.out.flush(); System.err.flush();
            if (res != null) { o.writeTo(e); o.reset(); if (res.exists()) try (FileInputStream f = new FileInputStream(res)) { o.write(f.readAllBytes()); } }
            out.writeInt(status); out.writeInt(o.size()); o.writeTo(out); out.writeInt(e.size()); e.writeTo(out); out.flush();
        }
    }
}
