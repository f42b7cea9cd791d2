// A simulated page that uses the browser module. The module and Go's
// wasm_exec.js are the real ones; the page's event loop, clocks, timers and
// random source are simulated: everything the module can ask of its host.
// Reads plans (see sim/plan), one a line, on standard input, writes the outcomes,
// one a line, to standard output and, after each event, a byte to standard error
// as a sign of life. Each plan has a page of its own.
import fs from 'node:fs';
import vm from 'node:vm';
import readline from 'node:readline';
import { createHash } from 'node:crypto';

const [, , wasmFile, glueFile] = process.argv;
const glue = new vm.Script(fs.readFileSync(glueFile, 'utf8'), { filename: 'wasm_exec.js' });
const mod = new WebAssembly.Module(fs.readFileSync(wasmFile));

const churn = "SELECT Id, Name, (SELECT Id, Name FROM Children WHERE Name = 'x') FROM Account WHERE (Name = 'a' OR Name = 'b') AND Parent.Name != 'c'";

function random(seed) { // sfc32
  let a = Number(BigInt.asUintN(32, BigInt(seed))), b = Number(BigInt.asUintN(32, BigInt(seed) >> 32n)), c = 0x9e3779b9, d = 1;
  const next = () => {
    const t = (((a + b) | 0) + d) | 0;
    d = (d + 1) | 0;
    a = b ^ (b >>> 9);
    b = (c + (c << 3)) | 0;
    c = ((c << 21) | (c >>> 11)) + t | 0;
    return t >>> 0;
  };
  for (let i = 0; i < 12; i++) next();
  return { n: (k) => Math.floor(next() / 4294967296 * k), f: () => next() / 4294967296 };
}

// live is the life of a page.
function live(plan) {
  // The clocks, in ms. Every reading takes some time.
  let mono = 0, wall0 = 0, cost = 0.01, grain = 0;
  let reads = 0;
  let seen = null; // readings during the current call
  const coarse = (t) => (grain > 0 ? Math.floor(t / grain) * grain : t);
  const perfNow = () => {
    reads++;
    mono += cost;
    const t = coarse(mono);
    if (seen) seen.perf.push(t);
    return t;
  };
  const dateNow = () => {
    reads++;
    mono += cost;
    const t = Math.floor(coarse(wall0 + mono));
    if (seen) seen.wall.push(t);
    return t;
  };

  let rand = random(String(plan.host || 1));
  let timers = [], timerId = 0;
  const log = [];

  class SimDate extends Date {
    constructor(...a) {
      if (a.length === 0) super(dateNow());
      else super(...a);
    }
    static now() { return dateNow(); }
  }

  const page = {
    WebAssembly, TextEncoder, TextDecoder, Uint8Array, Uint8ClampedArray,
    console: { log: (...a) => note(a), warn: (...a) => note(a), error: (...a) => note(a) },
    performance: { now: perfNow },
    Date: SimDate,
    crypto: {
      getRandomValues(a) {
        for (let i = 0; i < a.length; i++) a[i] = rand.n(256);
        return a;
      },
    },
    setTimeout(f, ms) {
      const id = ++timerId;
      timers.push({ id, at: mono + Math.max(0, Number(ms) || 0), f });
      return id;
    },
    clearTimeout(id) { timers = timers.filter((t) => t.id !== id); },
  };
  page.globalThis = page;
  page.window = page;
  page.self = page;
  function note(a) {
    log.push(a.join(' ').slice(0, 300));
    if (log.length > 30) log.splice(5, 1);
  }
  const ctx = vm.createContext(page);
  glue.runInContext(ctx);

  let go = null;
  function boot() { // (re)starts the application
    go = new ctx.Go();
    go.exit = () => {};
    if (plan.autoGC) go.env.GOGC = String(plan.autoGC);
    const g = go;
    go.run(new WebAssembly.Instance(mod, go.importObject)).catch((e) => note(['run: ' + e]));
    return g;
  }

  // fire lets due timers strike.
  function fire() {
    let trouble = '';
    for (let k = 0; k < 1000; k++) {
      const due = timers.filter((t) => t.at <= mono).sort((x, y) => x.at - y.at || x.id - y.id)[0];
      if (!due) break;
      timers = timers.filter((t) => t !== due);
      fired++;
      try { due.f(); } catch (e) { trouble = trouble || 'a timer event throws ' + e; }
    }
    return trouble;
  }
  let fired = 0, events = 0;

  const odd = {
    2: () => [], 3: () => [undefined], 4: () => [null], 5: (s) => [s.length], 6: () => [true], 7: () => [{}], 8: (s) => [[s]],
    9: () => [Symbol('SELECT')], 10: () => [() => 'SELECT Id FROM A'], 11: (s) => [new String(s)], 12: (s) => [BigInt(s.length)],
    14: (s) => [s.slice(0, s.length >> 1) + '\ud800' + s.slice(s.length >> 1)], 15: () => [{ toString() { throw new Error('toString'); } }],
    16: () => [NaN], 17: () => [new Uint8Array(3)], 18: () => [-0], 19: () => [Promise.resolve('x')], 20: () => [globalThis],
    21: (s) => ['\ufeff' + s], 22: (s) => [s + '\u0000'], 23: () => [''],
  };

  function call(op) {
    const s = plan.sources ? plan.sources[op.s || 0] : '';
    const kind = op.arg || 0;
    if (op.k === 'version') return page.getVersion();
    if (kind === 0) return page.parseSoql(s);
    if (kind === 1) return page.parseSoql(s, 'SELECT x FROM y', 7);
    if (kind === 13) return page.parseSoql.call({ id: 1 }, s);
    if (kind === 24) return Reflect.apply(page.parseSoql, undefined, [s]);
    return page.parseSoql(...(odd[kind] || (() => [s]))(s));
  }

  const sha = (s) => createHash('sha256').update(s).digest('hex').slice(0, 24);
  // The compile date and the elapsed time are the lines that may differ.
  function mask(s, res) {
    const at = s.lastIndexOf('\n  "meta": {\n');
    if (s[0] !== '{' || at < 0) return s;
    const head = s.slice(0, at), tail = s.slice(at).split('\n');
    return head + tail.filter((l) => {
      let m = /^ {4}"date": "(.*)",?$/.exec(l);
      if (m) { res.loc = m[1]; return false; }
      m = /^ {4}"elapsedTime": (.*?),?$/.exec(l);
      if (m) { res.el = Number(m[1]); return false; }
      return true;
    }).join('\n');
  }

  const out = { ops: [], rounds: [], injected: new Array(16).fill(0), other: {}, reads: 0 };
  const count = (k) => { out.other[k] = (out.other[k] || 0) + 1; };
  const write = (s) => { try { fs.writeSync(2, s); } catch {} };

  function step(ri, ti, oi, op, iter, rr) {
    const res = { r: ri, t: ti, o: oi, k: op.k, s: op.s || 0, done: true, inv: events, steps: 1 };
    if (iter) res.iter = iter;
    if (op.k === 'mem') {
      // Enough work for several collections of what is unused by now.
      try { for (let i = 0; i < 60 && !go.exited; i++) page.parseSoql(i < 57 ? churn : 'x'); } catch {}
      res.heap = go.exited ? 0 : go._inst.exports.mem.buffer.byteLength;
      res.objs = go.exited ? 0 : go._values.length - go._idPool.length;
      res.gor = go.exited ? 0 : go._scheduledTimeouts.size;
      return res;
    }
    if (op.k === 'boot') {
      boot();
      count('module restart');
      return res;
    }
    if (op.arg && op.arg !== 24) count('odd argument');
    seen = { perf: [], wall: [] };
    const m0 = mono;
    try {
      const v = call(op);
      if (typeof v !== 'string') res.err = 'not a string but ' + typeof v + ' ' + String(v).slice(0, 80);
      else {
        const t = mask(v, res);
        res.d = sha(t);
        res.dump = t.slice(0, 160);
        if (plan.dumps) res.b = Buffer.from(t).toString('base64');
      }
    } catch (e) {
      res.panic = String(e).slice(0, 200);
    }
    if (go.exited) res.panic = (res.panic || '') + ' the module has stopped: ' + log.slice(-30).join(' / ').slice(0, 500);
    // Clock readings, in ms.
    if (seen.wall.length) { res.W0 = Math.min(...seen.wall); res.FDW = Math.max(...seen.wall); }
    res.T0 = Math.round(seen.perf.length ? (seen.perf[seen.perf.length - 1] - seen.perf[0]) * 1e6 : 0);
    res.T1 = Math.round((mono - m0) * 1e6);
    seen = null;
    return res;
  }

  let booted = false;
  plan.rounds.forEach((round, ri) => {
    const c = round.cfg;
    const r = random(String(c.seed));
    const rr = { steps: 0, hash: '', decisions: [], simNs: 0 };
    const h = createHash('sha256');
    const t0 = mono;
    cost = c.stepCost > 0 ? c.stepCost / 1e6 : 0.01;
    grain = c.gap || 0;
    wall0 = (round.wall || 0) / 1e6 - mono;
    if (!booted) { rand = random(String(c.seed + 1)); boot(); booted = true; }
    const pos = round.tasks.map(() => ({ op: 0, iter: 0 }));
    const first = round.tasks.map((t) => new Array(t.ops.length).fill(null));
    const left = (i) => pos[i].op < round.tasks[i].ops.length;
    const given = c.explicit ? [...(c.decisions || [])] : null;
    const decide = () => {
      const can = round.tasks.map((_, i) => i).filter(left);
      if (given) {
        while (given.length) {
          const d = given.shift();
          if (d.k !== 1 || (d.t < pos.length && left(d.t))) return d;
        }
        return { t: can[0], k: 1, l: rr.steps, a: 0 };
      }
      if (c.faultGap > 0 && (c.faults || []).length && r.n(c.faultGap) === 0) {
        const k = c.faults[r.n(c.faults.length)];
        let a = 0;
        if (k === 2) a = Math.floor((c.maxStall || 1e6) * r.f() * r.f());
        if (k === 4) a = Math.floor((r.f() - 0.5) * 2 * [1e6, 1e9, 3600e9, 400 * 86400e9][r.n(4)]);
        return { t: 0, k, l: rr.steps, a };
      }
      return { t: c.policy === 0 ? can[0] : can[r.n(can.length)], k: 1, l: rr.steps, a: 0 };
    };
    let trouble = '';
    while (pos.some((_, i) => left(i))) {
      const d = decide();
      rr.decisions.push(d);
      h.update(JSON.stringify([d.t, d.k, d.a]));
      rr.steps++;
      if (d.k === 2) {
        mono += d.a / 1e6;
        out.injected[2]++;
      } else if (d.k === 4) {
        wall0 += d.a / 1e6;
        if (wall0 + mono < 86400e3) wall0 = 86400e3 - mono;
        out.injected[4]++;
      } else if (d.k === 7) {
        boot();
        count('module restart');
      } else {
        const p = pos[d.t], t = round.tasks[d.t], oi = p.op;
        const res = step(ri, d.t, oi, t.ops[oi], p.iter, rr);
        rr.steps++;
        events++;
        res.ret = events;
        h.update(JSON.stringify([res.d, res.err, res.panic]));
        const f = first[d.t][oi];
        if (!f) {
          first[d.t][oi] = res;
          out.ops.push(res);
        } else if (res.k !== 'mem' && !f.iter && (res.d !== f.d || res.err !== f.err || res.panic !== f.panic)) {
          Object.assign(f, { d: undefined, err: undefined, panic: undefined, dump: undefined }, res);
        }
        p.op++;
        if (!left(d.t) && p.iter + 1 < (t.loop || 1)) { p.iter++; p.op = 0; }
      }
      if (d.k !== 1 || r.n(4) === 0) trouble = trouble || fire();
      write('.');
      if (out.ops.length && out.ops[out.ops.length - 1].panic && go.exited) break; // nothing answers any more
    }
    mono += 3600e3; // whatever is scheduled may strike now
    trouble = trouble || fire();
    if (trouble) rr.livelock = trouble + ' ' + log.slice(-6).join(' / ').slice(0, 300);
    if (fired) out.other['timer events'] = (out.other['timer events'] || 0) + fired;
    fired = 0;
    rr.simNs = Math.round((mono - t0) * 1e6);
    rr.leftTimer = go.exited ? 0 : go._scheduledTimeouts.size;
    rr.hash = h.digest('hex').slice(0, 16);
    out.rounds.push(rr);
  });
  out.reads = reads;
  return out;
}

for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  const out = live(JSON.parse(line));
  const text = Buffer.from(JSON.stringify(out) + '\n');
  for (let i = 0; i < text.length;) {
    try { i += fs.writeSync(1, text, i); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
process.exit(0);
