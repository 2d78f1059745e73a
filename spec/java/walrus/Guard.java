package walrus;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.tool.EvalControl;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Judged(v): v, or {"..."} when v cannot be evaluated because a recorded
 *  result is not of the form the specification gives results. */
public class Guard {
  @Evaluation(definition = "Judged", module = "TraceBase", warn = false, silent = true)
  public static Value judged(final Tool tool, final ExprOrOpArgNode[] args, final Context c,
      final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
    try {
      final Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
      final Value s = (Value) v.toSetEnum();
      s.deepNormalize();
      return s;
    } catch (OutOfMemoryError e) {
      throw e;
    } catch (RuntimeException | StackOverflowError e) {
      String m = String.valueOf(e.getMessage()).replaceAll("[^A-Za-z0-9 .,;:()<>=+*/_-]", " ");
      if (m.length() > 200) m = m.substring(0, 200);
      return new SetEnumValue(new Value[] { new StringValue("the recorded result cannot be read as a result: " + m) }, true);
    }
  }
}
