"use strict";
const g = require("../lib/gens");
const { fc } = g;

module.exports = {
  id: "C21",
  level: "exploration",
  shards: 4,
  rule:
    "Operation histories (assign, assign the same value, reset, subscribe, unsubscribe, unsubscribe twice, listeners that unsubscribe themselves or another listener) over several settings, against a model of a plain observable variable; and histories over the library's own Settings followed by probes of parsing. Non-trivial: at least one change while at least one listener is subscribed, or a probe after a change.",
  assumptions: ["listeners do not throw or re-enter the setting"],
  async run(ctx) {
    const { Setting, Settings } = ctx.lib;
    const L = ctx.lib;
    const u = ctx.u;
    const objs = [{ a: 1 }, { a: 1 }, [], null, undefined, 0, -1, "", "x", true, false];
    const val = fc.nat(objs.length - 1);
    const op = fc.oneof(
      { weight: 5, arbitrary: fc.record({ op: fc.constant("set"), s: fc.nat(2), v: val }) },
      { weight: 1, arbitrary: fc.record({ op: fc.constant("same"), s: fc.nat(2) }) },
      { weight: 2, arbitrary: fc.record({ op: fc.constant("reset"), s: fc.nat(2) }) },
      { weight: 3, arbitrary: fc.record({ op: fc.constant("sub"), s: fc.nat(2), once: fc.boolean(), offs: fc.option(fc.nat(10), { nil: undefined, freq: 3 }) }) },
      { weight: 2, arbitrary: fc.record({ op: fc.constant("unsub"), i: fc.nat(10) }) },
    );
    await ctx.prop("observable-model", {
      runs: [12000, 300000],
      arb: fc.record({ defaults: fc.tuple(val, val, val), ops: fc.array(op, { minLength: 1, maxLength: 30 }) }),
      check({ defaults, ops }, t) {
        const real = defaults.map((d) => new Setting(objs[d]));
        const model = defaults.map((d) => objs[d]);
        const subs = []; // { s, live, once, offs, got: [], exp: [], stopped }
        let changes = 0;
        // what is expected of the listeners that are subscribed before, and not stopped by, the assignment
        const assign = (s, v) => {
          const old = model[s];
          if (old !== v) {
            model[s] = v;
            for (const x of subs) {
              if (x.s === s && x.live) {
                changes++;
                x.exp.push([old, v]);
              }
            }
          }
        };
        for (const o of ops) {
          if (o.op === "set") {
            assign(o.s, objs[o.v]);
            real[o.s].value = objs[o.v];
          } else if (o.op === "same") {
            real[o.s].value = real[o.s].value;
          } else if (o.op === "reset") {
            assign(o.s, objs[defaults[o.s]]);
            real[o.s].reset();
          } else if (o.op === "sub") {
            const x = { s: o.s, live: true, once: o.once, got: [], exp: [] };
            x.off = real[o.s].onChange((a, b) => {
              u.ok(x.live, "an unsubscribed listener was notified");
              x.got.push([a, b]);
              u.ok(real[o.s].value === b, "the new value is visible to listeners");
              // a listener may unsubscribe itself or another one: which of the two comes first is not promised
              const y = x.once ? x : o.offs === undefined ? undefined : subs[o.offs % subs.length];
              if (y?.live) {
                if (y.s === x.s && y.got.length < y.exp.length) y.exp.pop();
                y.live = false;
                y.off();
              }
            });
            subs.push(x);
          } else if (subs.length) {
            const x = subs[o.i % subs.length];
            x.live = false;
            x.off();
          }
          for (const [i, r] of real.entries()) {
            u.ok(r.value === model[i], `setting ${i} after ${JSON.stringify(o)}: ${u.show(r.value)}, expected ${u.show(model[i])}`);
            u.ok(r.valueOf() === model[i], "valueOf");
            u.ok(r.defaultValue === objs[defaults[i]], "defaultValue never changes");
            if (typeof model[i] !== "object") u.eq(String(r), String(model[i]), "toString");
          }
          for (const [i, x] of subs.entries()) {
            u.ok(x.got.length === x.exp.length && x.got.every(([a, b], j) => a === x.exp[j][0] && b === x.exp[j][1]), () => `listener ${i} after ${JSON.stringify(o)}: notified ${u.show(x.got)}, expected ${u.show(x.exp)}`);
          }
        }
        t.nontrivial(changes > 0);
      },
    });

    const KEYS = ["allowArchaicTimezoneOffsets", "allowBakerIslandTime", "maxValidOffsetMinutes", "tzAbbreviationOffsets", "logger"];
    const loggers = [1, 2].map(() => () => ({ trace() {}, debug() {}, info() {}, warn() {}, error() {} }));
    const VALS = [[true, false], [true, false], [5, 15, 30, 45], [{}, { CST: -360 }, { CST: 480, QQQ: 60 }, { PST: 0 }], loggers];
    const sop = fc.oneof(
      { weight: 5, arbitrary: fc.nat(4).chain((k) => fc.record({ op: fc.constant("set"), k: fc.constant(k), v: fc.nat(VALS[k].length - 1) })) },
      { weight: 1, arbitrary: fc.record({ op: fc.constant("reset"), k: fc.nat(4) }) },
      { weight: 1, arbitrary: fc.constant({ op: "resetAll" }) },
      { weight: 1, arbitrary: fc.constant({ op: "throwInside" }) },
    );
    const defaults = KEYS.map((k) => Settings[k].value);
    await ctx.prop("library-settings", {
      runs: [8000, 150000],
      arb: fc.array(sop, { minLength: 1, maxLength: 14 }),
      check(ops, t) {
        const model = [...defaults];
        const heard = KEYS.map(() => 0);
        const expHeard = KEYS.map(() => 0);
        const offs = KEYS.map((k, i) => Settings[k].onChange(() => heard[i]++));
        const set = (k, v) => {
          if (model[k] !== v) {
            model[k] = v;
            expHeard[k]++;
          }
        };
        try {
          for (const o of ops) {
            if (o.op === "set") {
              set(o.k, VALS[o.k][o.v]);
              Settings[KEYS[o.k]].value = VALS[o.k][o.v];
            } else if (o.op === "reset") {
              set(o.k, defaults[o.k]);
              Settings[KEYS[o.k]].reset();
            } else if (o.op === "resetAll") {
              KEYS.forEach((_, k) => set(k, defaults[k]));
              Settings.reset();
            }
            const what = `after ${JSON.stringify(ops.slice(0, ops.indexOf(o) + 1))}`;
            u.ok(KEYS.every((k, i) => Settings[k].value === model[i]), () => `${what}: settings are ${u.show(KEYS.map((k) => Settings[k].value))}, expected ${u.show(model)}`);
            u.eq(heard, expHeard, `${what}: notifications`);
            t.nontrivial(expHeard.some((x) => x > 0));
            u.eq(L.normalizeZone("+04:51")?.offset(0), model[0] ? 291 : undefined, `${what}: archaic offset`);
            u.eq(L.normalizeZone("-12:00")?.offset(0), model[1] ? -720 : undefined, `${what}: Baker Island offset`);
            u.eq(L.ExifDateTime.from("1950:01:02 03:04:05+04:51")?.tzoffsetMinutes, model[0] ? 291 : L.ExifDateTime.from("1950:01:02 03:04:05+04:51")?.tzoffsetMinutes, `${what}: archaic date-time`);
            u.eq(L.inferLikelyOffsetMinutes(600 + 17), model[2] >= 17 ? (model[2] >= 13 ? 630 : 600) : model[2] >= 13 ? 630 : undefined, `${what}: tolerance`);
            u.eq(L.inferLikelyOffsetMinutes(-721), model[1] ? -720 : undefined, `${what}: Baker inference`);
            const ab = (x, builtin) => {
              const m = model[3][x] ?? builtin;
              return m === undefined ? undefined : g.zoneName(m);
            };
            for (const [x, b] of [["CST", undefined], ["QQQ", undefined], ["PST", -480], ["JST", 540]]) u.eq(L.extractZone("2023:01:01 10:00:00 " + x)?.zone, ab(x, b), `${what}: abbreviation ${x}`);
          }
        } finally {
          offs.forEach((f) => f());
          Settings.reset();
        }
        u.eq(heard.length, KEYS.length, "");
      },
    });
  },
};
