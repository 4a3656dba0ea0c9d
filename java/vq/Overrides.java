package vq;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
    @Override
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] {RatOps.class, SplineOps.class};
    }
}
