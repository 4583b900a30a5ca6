import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import java.math.BigInteger;

/** TLC evaluation of the operators of module Rat on unbounded rationals (java.math.BigInteger). */
public class RatOverrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { RatOverrides.class }; }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value R(final Value a) { return RatValue.of(a); }
    @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
    public static Value str(final Value a) { return new StringValue(RatValue.of(a).str()); }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value add(final Value a, final Value b) { return RatValue.of(a).add(RatValue.of(b)); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value sub(final Value a, final Value b) { return RatValue.of(a).sub(RatValue.of(b)); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value mul(final Value a, final Value b) { return RatValue.of(a).mul(RatValue.of(b)); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value div(final Value a, final Value b) { return RatValue.of(a).mul(RatValue.of(b).inv()); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value neg(final Value a) { return RatValue.of(a).neg(); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value abs(final Value a) { return RatValue.of(a).abs(); }
    @TLAPlusOperator(identifier = "RSgn", module = "Rat", warn = false)
    public static Value sgn(final Value a) { return IntValue.gen(RatValue.of(a).n.signum()); }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value le(final Value a, final Value b) { return RatValue.of(a).cmp(RatValue.of(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value lt(final Value a, final Value b) { return RatValue.of(a).cmp(RatValue.of(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value eq(final Value a, final Value b) { return RatValue.of(a).equals(RatValue.of(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value max(final Value a, final Value b) {
        RatValue x = RatValue.of(a), y = RatValue.of(b);
        return x.cmp(y) <= 0 ? y : x;
    }
    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value sqrt(final Value a) { return RatValue.of(a).sqrt(); }
    @TLAPlusOperator(identifier = "RIsSquare", module = "Rat", warn = false)
    public static Value isSquare(final Value a) {
        RatValue x = RatValue.of(a);
        return x.n.signum() >= 0 && x.sqrt().mul(x.sqrt()).equals(x) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "RRnd", module = "Rat", warn = false)
    public static Value rnd(final Value a) { return RatValue.of(a).rnd(256); }
}
