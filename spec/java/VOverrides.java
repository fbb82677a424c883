import tlc2.overrides.ITLCOverrides;
public class VOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { VPrim.class }; }
}
