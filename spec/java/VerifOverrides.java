import tlc2.overrides.ITLCOverrides;

public class VerifOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] {IEEEOverrides.class}; }
}
