// Operators built from functions, and the predefined ones. A function value is what it computes:
// fap_..(f, args) is f applied to args.
ghost bfn Int
ghost bbfn Int
ghost mzero T
ghost mop Int
fn fap_TT_T(Int, T, T): T
fn fap_TT_B(Int, T, T): Bool
fn fap_BB_B(Int, Bool, Bool): Bool
fn fap_B_B(Int, Bool): Bool
def bapp(u, a, b) = fap_TT_T(bfn(u), a, b)

family Binary = BinaryOp
iface Binary
method Apply(in1, in2) y
  ensures y == fap_TT_T(bfn(self), in1, in2)
class binaryOp implements Binary
layout IBinaryOp apply
private
view bfn := self.apply

family BinaryBool = BinaryOpToBool
iface BinaryBool
method Apply(in1, in2) y
  ensures y <==> fap_TT_B(bbfn(self), in1, in2)
class binaryOpToBool implements BinaryBool
private
view bbfn := self.apply

family Monoid = MonoID
iface Monoid
method Zero() v
  ensures v == mzero(self)
method Reduce(done, slice) out
  requires given(mop(self))
  ensures fresh(out)
  folds slice until done into out by bfn(mop(self)) from mzero(self)
  loop ?v == acc(?c)
  loop ?b ==> !fired(?c)
  loop ?b || fired(?c)
class monoID implements Monoid
layout BinaryOp unit
private
view mzero := self.unit
view mop := self.BinaryOp

func unaryop.NewUnaryOp(apply) res
  flags fnvalue
  ensures fresh(res) && ufn(res) == apply
func binaryop.NewBinaryOp(apply) res
  flags fnvalue
  ensures fresh(res) && bfn(res) == apply
func binaryop.NewBinaryOpToBool(apply) res
  flags fnvalue
  ensures fresh(res) && bbfn(res) == apply
func binaryop.NewMonoID(zero, operator) res
  ensures fresh(res) && mzero(res) == zero && mop(res) == operator

func binaryop.FirstArgument() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == a
func binaryop.SecondArgument() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == b
func binaryop.Minimum() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} ismin(bapp(res, a, b), a, b)
func binaryop.Maximum() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} ismax(bapp(res, a, b), a, b)
func binaryop.Addition() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tadd(a, b)
func binaryop.Subtraction() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tsub(a, b)
func binaryop.Multiplication() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tmul(a, b)
func binaryop.Division() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tdiv(a, b)
func operators.FirstArgument() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == a
func operators.SecondArgument() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == b
func operators.Minimum() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} ismin(bapp(res, a, b), a, b)
func operators.Maximum() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} ismax(bapp(res, a, b), a, b)
func operators.Addition() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tadd(a, b)
func operators.Subtraction() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tsub(a, b)
func operators.Multiplication() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tmul(a, b)
func operators.Division() res
  ensures given(res)
  ensures forall a:T, b:T :: {bapp(res, a, b)} bapp(res, a, b) == tdiv(a, b)
func operators.Equal() res
  ensures given(res)
  ensures forall a:T, b:T :: {fap_TT_B(bbfn(res), a, b)} fap_TT_B(bbfn(res), a, b) <==> teq(a, b)
func operators.NotEqual() res
  ensures given(res)
  ensures forall a:T, b:T :: {fap_TT_B(bbfn(res), a, b)} fap_TT_B(bbfn(res), a, b) <==> !teq(a, b)
func operators.GreaterThan() res
  ensures given(res)
  ensures forall a:T, b:T :: {fap_TT_B(bbfn(res), a, b)} fap_TT_B(bbfn(res), a, b) <==> tlt(b, a)
func operators.LessThan() res
  ensures given(res)
  ensures forall a:T, b:T :: {fap_TT_B(bbfn(res), a, b)} fap_TT_B(bbfn(res), a, b) <==> tlt(a, b)
func operators.GreaterThanOrEqual() res
  ensures given(res)
  ensures forall a:T, b:T :: {fap_TT_B(bbfn(res), a, b)} fap_TT_B(bbfn(res), a, b) <==> (tlt(b, a) || teq(a, b))
func operators.LessThanOrEqual() res
  ensures given(res)
  ensures forall a:T, b:T :: {fap_TT_B(bbfn(res), a, b)} fap_TT_B(bbfn(res), a, b) <==> (tlt(a, b) || teq(a, b))
func var operators.LOR()
  ensures it != 0 && (forall a:Bool, b:Bool :: {fap_BB_B(bfn(it), a, b)} fap_BB_B(bfn(it), a, b) <==> a || b)
func var operators.LAND()
  ensures it != 0 && (forall a:Bool, b:Bool :: {fap_BB_B(bfn(it), a, b)} fap_BB_B(bfn(it), a, b) <==> a && b)
func var operators.LXOR()
  ensures it != 0 && (forall a:Bool, b:Bool :: {fap_BB_B(bfn(it), a, b)} fap_BB_B(bfn(it), a, b) <==> !(a <==> b))
func var operators.LogicalInverse()
  ensures it != 0 && (forall a:Bool :: {fap_B_B(ufn(it), a)} fap_B_B(ufn(it), a) <==> !a)

func DefaultMonoIDAddition() res
  ensures fresh(res) && given(mop(res)) && mzero(res) == tzero && (forall a:T, b:T :: {bapp(mop(res), a, b)} bapp(mop(res), a, b) == tadd(a, b))
  ensures addop(bfn(mop(res)))
func DefaultMonoIDMaximum() res
  ensures fresh(res) && given(mop(res)) && mzero(res) == tzero && (forall a:T, b:T :: {bapp(mop(res), a, b)} ismax(bapp(mop(res), a, b), a, b))
  ensures maxop(bfn(mop(res)))
