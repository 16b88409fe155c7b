import com.sun.source.tree.*;
import com.sun.source.util.*;
import javax.tools.*;
import java.util.*;
import java.io.*;

/** Dumps the syntax trees of Java files as JSON; parses only, nothing is resolved or run. */
public class Dump {
    static CompilationUnitTree cu; static SourcePositions sp;
    static String q(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32) b.append(' '); else b.append(c); }
        return b.append('"').toString();
    }
    static String l(List<? extends Tree> ts) {
        StringBuilder b = new StringBuilder("[");
        if (ts != null) for (int i = 0; i < ts.size(); i++) { if (i > 0) b.append(","); b.append(j(ts.get(i))); }
        return b.append("]").toString();
    }
    static long line(Tree t) { long p = sp.getStartPosition(cu, t); return p < 0 ? 0 : cu.getLineMap().getLineNumber(p); }
    static String o(Tree t, String... kv) {
        StringBuilder b = new StringBuilder("{\"k\":" + q(t.getKind().name()) + ",\"line\":" + line(t));
        for (int i = 0; i < kv.length; i += 2) b.append(",\"" + kv[i] + "\":" + kv[i + 1]);
        return b.append("}").toString();
    }
    static String j(Tree t) {
        if (t == null) return "null";
        if (t instanceof ClassTree c) return o(t, "name", q(c.getSimpleName().toString()), "ext", c.getExtendsClause() == null ? "null" : q(c.getExtendsClause().toString()), "members", l(c.getMembers()));
        if (t instanceof MethodTree m) return o(t, "name", q(m.getName().toString()), "params", l(m.getParameters()), "body", j(m.getBody()), "mods", q(m.getModifiers().getFlags().toString()));
        if (t instanceof VariableTree v) return o(t, "name", q(v.getName().toString()), "type", v.getType() == null ? "null" : q(v.getType().toString()), "init", j(v.getInitializer()), "mods", q(v.getModifiers().getFlags().toString()));
        if (t instanceof BlockTree b) return o(t, "body", l(b.getStatements()), "static", "" + b.isStatic());
        if (t instanceof ExpressionStatementTree e) return o(t, "e", j(e.getExpression()));
        if (t instanceof MethodInvocationTree m) return o(t, "f", j(m.getMethodSelect()), "args", l(m.getArguments()));
        if (t instanceof MemberSelectTree m) return o(t, "e", j(m.getExpression()), "name", q(m.getIdentifier().toString()));
        if (t instanceof MemberReferenceTree m) return o(t, "e", j(m.getQualifierExpression()), "name", q(m.getName().toString()));
        if (t instanceof IdentifierTree i) return o(t, "name", q(i.getName().toString()));
        if (t instanceof LiteralTree i) return o(t, "v", q(String.valueOf(i.getValue())));
        if (t instanceof AssignmentTree a) return o(t, "l", j(a.getVariable()), "r", j(a.getExpression()));
        if (t instanceof CompoundAssignmentTree a) return o(t, "l", j(a.getVariable()), "r", j(a.getExpression()));
        if (t instanceof IfTree i) return o(t, "c", j(i.getCondition()), "a", j(i.getThenStatement()), "b", j(i.getElseStatement()));
        if (t instanceof ConditionalExpressionTree i) return o(t, "c", j(i.getCondition()), "a", j(i.getTrueExpression()), "b", j(i.getFalseExpression()));
        if (t instanceof ReturnTree r) return o(t, "e", j(r.getExpression()));
        if (t instanceof ThrowTree r) return o(t, "e", j(r.getExpression()));
        if (t instanceof NewClassTree n) return o(t, "c", q(n.getIdentifier().toString()), "args", l(n.getArguments()));
        if (t instanceof TypeCastTree c) return o(t, "e", j(c.getExpression()));
        if (t instanceof ParenthesizedTree c) return o(t, "e", j(c.getExpression()));
        if (t instanceof InstanceOfTree c) return o(t, "e", j(c.getExpression()), "type", q(String.valueOf(c.getType())));
        if (t instanceof BinaryTree b) return o(t, "l", j(b.getLeftOperand()), "r", j(b.getRightOperand()));
        if (t instanceof UnaryTree b) return o(t, "e", j(b.getExpression()));
        if (t instanceof TryTree y) return o(t, "body", j(y.getBlock()), "fin", j(y.getFinallyBlock()));
        if (t instanceof SynchronizedTree y) return o(t, "body", j(y.getBlock()));
        return o(t, "text", q(t.toString()));
    }
    public static void main(String[] a) throws Exception {
        JavaCompiler c = ToolProvider.getSystemJavaCompiler();
        StandardJavaFileManager fm = c.getStandardFileManager(null, null, null);
        JavacTask task = (JavacTask) c.getTask(new PrintWriter(new StringWriter()), fm, x -> {}, List.of("-proc:none"), null, fm.getJavaFileObjects(a));
        sp = Trees.instance(task).getSourcePositions();
        StringBuilder b = new StringBuilder("[");
        int n = 0;
        for (CompilationUnitTree u : task.parse()) {
            cu = u;
            if (n++ > 0) b.append(",\n");
            b.append("{\"file\":" + q(u.getSourceFile().getName()) + ",\"package\":" + q(String.valueOf(u.getPackageName())) + ",\"types\":" + l(u.getTypeDecls()) + "}");
        }
        System.out.println(b.append("]"));
    }
}
