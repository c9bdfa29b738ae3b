//! C11: which children a supervisor restarts, in which order.
use hv::sup::*;
use hv::*;

fn crashes(ep: &mut Ep) {
    history(ep, Focus { crash: 9, request: 1, fail: 0, gate: 0, auto: false, slow_stops: false, tight: false, initial_failures: false });
}

fn failing(ep: &mut Ep) {
    history(ep, Focus { crash: 5, request: 1, fail: 4, gate: 0, auto: false, slow_stops: false, tight: false, initial_failures: true });
}

fn gated(ep: &mut Ep) {
    history(ep, Focus { crash: 5, request: 2, fail: 4, gate: 5, auto: false, slow_stops: false, tight: false, initial_failures: false });
}

fn slow(ep: &mut Ep) {
    history(ep, Focus { crash: 5, request: 1, fail: 2, gate: 2, auto: false, slow_stops: true, tight: false, initial_failures: false });
}

fn main() {
    run("C11", &[scenario("crashes", 2, crashes), scenario("failing", 1, failing), scenario("gated", 2, gated), scenario("slow", 1, slow)]);
}
