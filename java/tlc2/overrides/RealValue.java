package tlc2.overrides;

import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/** A TLC value standing for a real number, held as an IEEE-754 double. */
public final class RealValue extends Value {
    public final double val;

    public RealValue(final double v) {
        this.val = v;
    }

    /** The double denoted by a number value; integers are reals. */
    static double dbl(final Object v) {
        if (v instanceof RealValue) {
            return ((RealValue) v).val;
        }
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        Assert.fail("Real64: not a number: " + v);
        return Double.NaN;
    }

    @Override
    public byte getKind() {
        return REALVALUE;
    }

    @Override
    public int compareTo(final Object other) {
        if (other instanceof RealValue || other instanceof IntValue) {
            return Double.compare(val, dbl(other));
        }
        Assert.fail("Attempted to compare real " + this + " with non-number " + other);
        return 0;
    }

    @Override
    public boolean equals(final Object other) {
        if (other instanceof RealValue || other instanceof IntValue) {
            return val == dbl(other);
        }
        return false;
    }

    @Override
    public boolean member(final Value elem) {
        Assert.fail("Attempted to check membership in the real " + this);
        return false;
    }

    @Override
    public boolean isFinite() {
        return false;
    }

    @Override
    public Value takeExcept(final ValueExcept ex) {
        if (ex.idx < ex.path.length) {
            Assert.fail("EXCEPT applied to the real " + this);
        }
        return ex.value;
    }

    @Override
    public Value takeExcept(final ValueExcept[] exs) {
        if (exs.length != 0) {
            Assert.fail("EXCEPT applied to the real " + this);
        }
        return this;
    }

    @Override
    public int size() {
        Assert.fail("Attempted to compute the size of the real " + this);
        return 0;
    }

    @Override
    public boolean mutates() {
        return false;
    }

    @Override
    public boolean isNormalized() {
        return true;
    }

    @Override
    public Value normalize() {
        return this;
    }

    @Override
    public boolean isDefined() {
        return true;
    }

    @Override
    public IValue deepCopy() {
        return this;
    }

    @Override
    public void write(final IValueOutputStream vos) {
        throw new UnsupportedOperationException("Real64 values cannot be spilled to disk");
    }

    @Override
    public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, REALVALUE);
        final long bits = Double.doubleToLongBits(val == 0.0 ? 0.0 : val);
        fp = FP64.Extend(fp, (int) (bits >>> 32));
        return FP64.Extend(fp, (int) bits);
    }

    @Override
    public IValue permute(final IMVPerm perm) {
        return this;
    }

    @Override
    public StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
        return sb.append(Double.toString(val));
    }
}
