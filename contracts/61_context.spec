// A context with an execution mode.
ghost cmode Int
ghost cbase Int
class graphContect
layout Context mode
private
view cmode := self.mode
view cbase := self.Context
method Mode() n
  ensures n == cmode(self)
func NewContext(ctx, mode) res
  ensures isa(res, graphContect) && !isnil(res) && cmode(res) == mode
  ensures cbase(res) == ctx || res == ctx || isa(ctx, graphContect) && cbase(res) == cbase(ctx)
func BlockingMode(ctx) n, b
  ensures b <==> isa(ctx, graphContect) && !isnil(ctx)
  ensures b ==> n == cmode(ctx)
  ensures !b ==> n == Blocking
