package walrus;
import tlc2.overrides.ITLCOverrides;
public class WalrusOverrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { ExactNum.class, ExactMat.class, Guard.class }; }
}
