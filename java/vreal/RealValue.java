package vreal;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** A TLC value holding one multi-precision real number. */
public final class RealValue extends Value {
    public final Big v;
    public RealValue(Big v) { this.v = v; }

    @Override public byte getKind() { return STRINGVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RealValue) return v.compareTo(((RealValue) o).v);
        if (o instanceof IntValue) return v.compareTo(Big.of(((IntValue) o).val));
        return -1;
    }
    @Override public boolean equals(Object o) {
        if (o instanceof RealValue) return v.equals(((RealValue) o).v);
        if (o instanceof IntValue) return v.equals(Big.of(((IntValue) o).val));
        return false;
    }
    @Override public boolean member(Value elem) { throw new RuntimeException("a real number is not a set"); }
    @Override public boolean isFinite() { throw new RuntimeException("a real number is not a set"); }
    @Override public Value takeExcept(ValueExcept ex) { return ex.value; }
    @Override public Value takeExcept(ValueExcept[] exs) { return exs.length == 0 ? this : exs[exs.length - 1].value; }
    @Override public int size() { return 1; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    public boolean assignable(Value val) { return equals(val); }
    @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, STRINGVALUE), v.key()); }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(v.toString()); }
    @Override public void write(IValueOutputStream vos) { throw new RuntimeException("RealValue: use an in-memory state queue"); }
}
