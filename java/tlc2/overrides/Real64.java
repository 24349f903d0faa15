package tlc2.overrides;

import java.io.FileReader;
import java.io.IOException;
import java.io.Writer;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;

import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import com.google.gson.JsonPrimitive;
import com.google.gson.stream.JsonReader;

import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** TLC implementation of the operators declared in spec/Real64.tla. */
public final class Real64 {
    private Real64() {
    }

    private static Value r(final double d) {
        return new RealValue(d);
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "ToReal", module = "Real64", warn = false)
    public static Value toReal(final Value a) {
        return a instanceof RealValue ? a : r(RealValue.dbl(a));
    }

    @TLAPlusOperator(identifier = "Dec", module = "Real64", warn = false)
    public static Value dec(final StringValue s) {
        return r(Double.parseDouble(s.getVal().toString()));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Real64", warn = false)
    public static Value add(final Value x, final Value y) {
        return r(RealValue.dbl(x) + RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Real64", warn = false)
    public static Value sub(final Value x, final Value y) {
        return r(RealValue.dbl(x) - RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Real64", warn = false)
    public static Value mul(final Value x, final Value y) {
        return r(RealValue.dbl(x) * RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Real64", warn = false)
    public static Value div(final Value x, final Value y) {
        return r(RealValue.dbl(x) / RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Real64", warn = false)
    public static Value neg(final Value x) {
        return r(-RealValue.dbl(x));
    }

    @TLAPlusOperator(identifier = "RAbs", module = "Real64", warn = false)
    public static Value abs(final Value x) {
        return r(Math.abs(RealValue.dbl(x)));
    }

    @TLAPlusOperator(identifier = "RMax", module = "Real64", warn = false)
    public static Value max(final Value x, final Value y) {
        return r(Math.max(RealValue.dbl(x), RealValue.dbl(y)));
    }

    @TLAPlusOperator(identifier = "RMin", module = "Real64", warn = false)
    public static Value min(final Value x, final Value y) {
        return r(Math.min(RealValue.dbl(x), RealValue.dbl(y)));
    }

    @TLAPlusOperator(identifier = "RExp", module = "Real64", warn = false)
    public static Value exp(final Value x) {
        return r(Math.exp(RealValue.dbl(x)));
    }

    @TLAPlusOperator(identifier = "RLn", module = "Real64", warn = false)
    public static Value ln(final Value x) {
        return r(Math.log(RealValue.dbl(x)));
    }

    @TLAPlusOperator(identifier = "RPow", module = "Real64", warn = false)
    public static Value pow(final Value x, final Value y) {
        return r(Math.pow(RealValue.dbl(x), RealValue.dbl(y)));
    }

    @TLAPlusOperator(identifier = "RFloor", module = "Real64", warn = false)
    public static Value floor(final Value x) {
        return IntValue.gen((int) Math.floor(RealValue.dbl(x)));
    }

    @TLAPlusOperator(identifier = "RLt", module = "Real64", warn = false)
    public static Value lt(final Value x, final Value y) {
        return b(RealValue.dbl(x) < RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "RLe", module = "Real64", warn = false)
    public static Value le(final Value x, final Value y) {
        return b(RealValue.dbl(x) <= RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "REq", module = "Real64", warn = false)
    public static Value eq(final Value x, final Value y) {
        return b(RealValue.dbl(x) == RealValue.dbl(y));
    }

    @TLAPlusOperator(identifier = "RIsNaN", module = "Real64", warn = false)
    public static Value isNaN(final Value x) {
        return b(Double.isNaN(RealValue.dbl(x)));
    }

    @TLAPlusOperator(identifier = "RIsFinite", module = "Real64", warn = false)
    public static Value isFin(final Value x) {
        final double d = RealValue.dbl(x);
        return b(!Double.isNaN(d) && !Double.isInfinite(d));
    }

    /** |x - y| <= tol * max(1, |x|, |y|); false whenever x or y is NaN or infinite. */
    @TLAPlusOperator(identifier = "Close", module = "Real64", warn = false)
    public static Value close(final Value x, final Value y, final Value tol) {
        final double a = RealValue.dbl(x), c = RealValue.dbl(y), t = RealValue.dbl(tol);
        if (Double.isNaN(a) || Double.isNaN(c) || Double.isInfinite(a) || Double.isInfinite(c)) {
            return BoolValue.ValFalse;
        }
        return b(Math.abs(a - c) <= t * Math.max(1.0, Math.max(Math.abs(a), Math.abs(c))));
    }

    /** Sum of a sequence of numbers. */
    @TLAPlusOperator(identifier = "RSum", module = "Real64", warn = false)
    public static Value sum(final Value s) {
        final TupleValue t = (TupleValue) s.toTuple();
        double acc = 0.0;
        for (final Value v : t.elems) {
            acc += RealValue.dbl(v);
        }
        return r(acc);
    }

    // --- JSON ---------------------------------------------------------------------------

    private static Value fromJson(final JsonElement e) {
        if (e.isJsonNull()) {
            return new StringValue("null");
        }
        if (e.isJsonArray()) {
            final JsonArray a = e.getAsJsonArray();
            final Value[] vs = new Value[a.size()];
            for (int i = 0; i < vs.length; i++) {
                vs[i] = fromJson(a.get(i));
            }
            return new TupleValue(vs);
        }
        if (e.isJsonObject()) {
            final JsonObject o = e.getAsJsonObject();
            final List<UniqueString> ks = new ArrayList<>();
            final List<Value> vs = new ArrayList<>();
            for (final Map.Entry<String, JsonElement> en : o.entrySet()) {
                ks.add(UniqueString.uniqueStringOf(en.getKey()));
                vs.add(fromJson(en.getValue()));
            }
            final Value rec = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
            rec.normalize();
            return rec;
        }
        final JsonPrimitive p = e.getAsJsonPrimitive();
        if (p.isBoolean()) {
            return b(p.getAsBoolean());
        }
        if (p.isString()) {
            final String s = p.getAsString();
            if (s.equals("NaN") || s.equals("Infinity") || s.equals("-Infinity")) {
                return r(Double.parseDouble(s));
            }
            return new StringValue(s);
        }
        final String s = p.getAsString();
        if (s.matches("-?[0-9]{1,9}")) {
            return IntValue.gen(Integer.parseInt(s));
        }
        return r(Double.parseDouble(s));
    }

    /** The value of a JSON document: numbers written with '.' or 'e' become reals, others integers. */
    @TLAPlusOperator(identifier = "LoadJson", module = "Real64", warn = false)
    public static Value loadJson(final StringValue path) throws IOException {
        try (FileReader fr = new FileReader(path.getVal().toString(), StandardCharsets.UTF_8)) {
            final JsonReader jr = new JsonReader(fr);
            jr.setLenient(true);
            return fromJson(new JsonParser().parse(jr));
        }
    }

    private static void esc(final StringBuilder sb, final String s) {
        sb.append(new JsonPrimitive(s).toString());
    }

    private static void toJson(final StringBuilder sb, final IValue v0) {
        Value v = (Value) v0;
        if (v instanceof RealValue) {
            final double d = ((RealValue) v).val;
            if (Double.isNaN(d) || Double.isInfinite(d)) {
                esc(sb, Double.toString(d));
            } else {
                sb.append(Double.toString(d));
            }
        } else if (v instanceof IntValue || v instanceof BoolValue) {
            sb.append(v instanceof BoolValue ? (((BoolValue) v).val ? "true" : "false") : Integer.toString(((IntValue) v).val));
        } else if (v instanceof StringValue) {
            esc(sb, ((StringValue) v).getVal().toString());
        } else if (v instanceof RecordValue) {
            final RecordValue rv = (RecordValue) v;
            sb.append('{');
            for (int i = 0; i < rv.names.length; i++) {
                if (i > 0) {
                    sb.append(',');
                }
                esc(sb, rv.names[i].toString());
                sb.append(':');
                toJson(sb, rv.values[i]);
            }
            sb.append('}');
        } else if (v instanceof SetEnumValue || v instanceof IntervalValue) {
            final SetEnumValue sv = (SetEnumValue) v.toSetEnum();
            sv.normalize();
            sb.append('[');
            for (int i = 0; i < sv.elems.size(); i++) {
                if (i > 0) {
                    sb.append(',');
                }
                toJson(sb, sv.elems.elementAt(i));
            }
            sb.append(']');
        } else {
            final Value tv = v.toTuple();
            if (tv != null) {
                final TupleValue t = (TupleValue) tv;
                sb.append('[');
                for (int i = 0; i < t.elems.length; i++) {
                    if (i > 0) {
                        sb.append(',');
                    }
                    toJson(sb, t.elems[i]);
                }
                sb.append(']');
                return;
            }
            final Value rv = v.toRcd();
            if (rv != null) {
                toJson(sb, rv);
                return;
            }
            final Value se = v.toSetEnum();
            if (se != null) {
                toJson(sb, se);
                return;
            }
            esc(sb, v.toString());
        }
    }

    /** Writes v to path as JSON; TRUE. Functions with a non-string, non-1..n domain come out as text. */
    @TLAPlusOperator(identifier = "DumpJson", module = "Real64", warn = false)
    public static Value dumpJson(final StringValue path, final Value v) throws IOException {
        final StringBuilder sb = new StringBuilder();
        toJson(sb, v);
        sb.append('\n');
        Files.writeString(Path.of(path.getVal().toString()), sb.toString(), StandardCharsets.UTF_8);
        return BoolValue.ValTrue;
    }

    /** Appends v to path as one JSON line; TRUE. */
    @TLAPlusOperator(identifier = "AppendJson", module = "Real64", warn = false)
    public static synchronized Value appendJson(final StringValue path, final Value v) throws IOException {
        final StringBuilder sb = new StringBuilder();
        toJson(sb, v);
        sb.append('\n');
        try (Writer w = Files.newBufferedWriter(Path.of(path.getVal().toString()), StandardCharsets.UTF_8,
                java.nio.file.StandardOpenOption.CREATE, java.nio.file.StandardOpenOption.APPEND)) {
            w.write(sb.toString());
        }
        return BoolValue.ValTrue;
    }
}
