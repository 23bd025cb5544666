// Decides one property: node bin/check.mjs Cxx [quick|thorough]
//  1. TLC explores the property's suites of spec/Model.tla (invariants and
//     absence of deadlock), printing every behaviour as a script;
//  2. the scripts are performed on the SDK bundled from /repo's working tree;
//  3. TLC checks the recorded events against spec/Trace.tla, printing every
//     difference;
//  4. differences the property claims, except listed known findings, are
//     violations.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { build, version } from '../harness/build.mjs';
import { MODELS, PROPERTIES } from '../harness/claims.mjs';
import { soloScript } from '../harness/solo.mjs';

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const id = process.argv[2];
const tier = process.argv[3] || process.env.VERIF_TIER || 'quick';
const seed = Number.parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const prop = PROPERTIES[id] && { ...PROPERTIES[id] };
// for development: only some of the suites
if (prop && process.env.VERIF_SUITES)
  prop.suites = prop.suites.filter((s) => process.env.VERIF_SUITES.split(',').includes(s));
if (!prop || !['quick', 'thorough'].includes(tier)) {
  console.error('usage: check.mjs Cxx [quick|thorough]');
  process.exit(2);
}
const started = Date.now();
const elapsed = () => (Date.now() - started) / 1000;
const BUDGET = Number(process.env.VERIF_BUDGET || (tier === 'thorough' ? 600 : 0));
const CORES = Math.max(2, Math.min(8, os.cpus().length));
const CHUNK = 400;
const JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`));
const children = new Set();
function cleanup() {
  for (const c of children) {
    try {
      c.kill('SIGKILL');
    } catch {}
  }
  fs.rmSync(tmp, { recursive: true, force: true });
}
process.on('exit', cleanup);
for (const s of ['SIGINT', 'SIGTERM', 'SIGHUP']) process.on(s, () => process.exit(2));

function run(cmd, args, opts, out) {
  return new Promise((resolve) => {
    const fd = fs.openSync(out, 'w');
    const c = spawn(cmd, args, { ...opts, stdio: ['ignore', fd, fd] });
    children.add(c);
    const timer = setTimeout(() => c.kill('SIGKILL'), opts.timeout);
    c.on('close', (code, signal) => {
      clearTimeout(timer);
      children.delete(c);
      fs.closeSync(fd);
      resolve({ code: code ?? -1, signal });
    });
  });
}
async function pool(items, width, fn) {
  const out = [];
  let next = 0;
  await Promise.all(
    Array.from({ length: Math.min(width, items.length) }, async () => {
      while (next < items.length) {
        const k = next++;
        out[k] = await fn(items[k], k);
      }
    }),
  );
  return out;
}
class Broken extends Error {}
const tail = (f, n = 40) =>
  fs.readFileSync(f, 'utf8').split('\n').filter((l) => !/^"(SC|MM)/.test(l)).slice(-n).join('\n').slice(-4000);
const lines = (file, prefix) => {
  const out = [];
  for (const l of fs.readFileSync(file, 'utf8').split('\n'))
    if (l.startsWith(`"${prefix} `)) out.push(JSON.parse(JSON.parse(l).slice(prefix.length + 1)));
  return out;
};
const tlc = (name, conf, mod, env, workers, heap, timeout) => {
  const out = path.join(tmp, `${name}.out`);
  const meta = path.join(tmp, `${name}.meta`);
  return run(
    'java',
    [
      workers > 1 ? '-XX:+UseParallelGC' : '-XX:+UseSerialGC', '-Xss64m', `-Xmx${heap}`, '-cp', JAR, 'tlc2.TLC',
      '-metadir', meta, '-noGenerateSpecTE', '-workers', String(workers), '-config', `${conf}.cfg`, `${mod}.tla`,
    ],
    { cwd: path.join(ROOT, 'spec'), env: { ...process.env, ...env }, timeout },
    out,
  ).then((r) => {
    fs.rmSync(meta, { recursive: true, force: true });
    return { ...r, out };
  });
};

// ------------------------------------------------------------- 1. the model
async function explore(suite, useSeed, width) {
  const model = MODELS[suite] ?? 'Model';
  const r = await tlc(
    `model-${suite}-${useSeed}`, model, model, { SUITE: suite, SEED: String(useSeed), TIER: tier },
    width, tier === 'thorough' ? '8g' : '4g', tier === 'thorough' ? 3_000_000 : 800_000,
  );
  const text = tail(r.out, 15);
  const m = /(\d+) states generated, (\d+) distinct states found, 0 states left/.exec(text);
  if (r.code !== 0 || !/No error has been found/.test(fs.readFileSync(r.out, 'utf8')) || !m)
    throw new Broken(`model check of ${suite} failed (${r.code} ${r.signal ?? ''})\n${tail(r.out, 60)}`);
  const scripts = lines(r.out, 'SC').map((s, n) => ({ ...s, id: `${suite}:${s.id}~${useSeed}.${n}` }));
  fs.rmSync(r.out);
  return { suite, states: Number(m[2]), transitions: Number(m[1]), scripts };
}

// ------------------------------------------- 2. and 3. the code, monitored
let serial = 0;
async function perform(scripts, bundleDir, useSeed) {
  const mySerial = ++serial;
  const name = `part${mySerial}`;
  const scn = path.join(tmp, `${name}.scn`);
  const trace = path.join(tmp, `${name}.trace`);
  fs.writeFileSync(scn, scripts.map((s) => `${JSON.stringify(s)}\n`).join(''));
  const d = await run(
    process.execPath,
    ['--no-warnings', path.join(ROOT, 'harness/run.mjs'), scn, trace, bundleDir, version(), String(useSeed)],
    { cwd: ROOT, timeout: 600_000 },
    path.join(tmp, `${name}.drv`),
  );
  if (process.env.VERIF_TIMES) console.error(`${name} performed after ${elapsed().toFixed(1)} s`);
  if (d.code !== 0) throw new Broken(`driver failed (${d.code} ${d.signal ?? ''})\n${tail(path.join(tmp, `${name}.drv`))}`);
  const r = await tlc(`${name}-trace`, 'Trace', 'Trace', { TRACE: trace }, 1, '3g', 800_000);
  const done = /"DONE (\d+) of (\d+)"/.exec(fs.readFileSync(r.out, 'utf8'));
  if (r.code !== 0 || !done || done[1] !== done[2])
    throw new Broken(`trace validation failed (${r.code} ${r.signal ?? ''})\n${tail(r.out, 60)}`);
  const mm = lines(r.out, 'MM');
  let sample;
  if (mm.length || mySerial === 1) {
    const events = fs.readFileSync(trace, 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l));
    const spans = new Map();
    let cur;
    events.forEach((e) => {
      if (e.e === 'scn') spans.set(e.id, (cur = []));
      cur.push(e);
    });
    for (const m of mm) {
      m.events = spans.get(m.s);
      m.script = scripts.find((s) => s.id === m.s);
      m.at = events[m.line - 1];
      m.seed = useSeed;
    }
    if (mySerial === 1) sample = { script: scripts[0], events: spans.get(scripts[0].id) };
  }
  fs.rmSync(scn);
  fs.rmSync(trace);
  fs.rmSync(r.out);
  return { mm, events: Number(done[1]), sample };
}

// ------------------------------------------------------- known findings
function knownFindings() {
  const out = [];
  for (const l of fs.readFileSync(path.join(ROOT, 'known-findings.txt'), 'utf8').split('\n')) {
    const m = /^known: property=(\S+) tag=(\S+) op=(\S+)\s+(.*)$/.exec(l);
    if (m) out.push({ property: m[1], tag: m[2], op: m[3], text: m[4] });
  }
  return out.filter((k) => k.property === id);
}

async function main() {
  const known = knownFindings();
  const bundle = path.join(tmp, 'bundle');
  const total = { states: 0, transitions: 0, traces: 0, events: 0, programs: 0, rounds: 0 };
  const perSuite = {};
  const violations = [];
  const seenKnown = new Map();
  const otherTags = {};
  let sample;
  const bundled = build(bundle);
  for (let round = 0; ; round++) {
    const useSeed = seed + 7919 * round;
    const width = Math.max(2, Math.floor(CORES / Math.min(prop.suites.length, 3)));
    const explored = await pool(prop.suites, 3, (s) => explore(s, useSeed, width));
    await bundled;
    if (process.env.VERIF_TIMES) console.error(`explored after ${elapsed().toFixed(1)} s`);
    for (const x of explored) {
      total.states += x.states;
      total.transitions += x.transitions;
      const p = (perSuite[x.suite] ??= { states: 0, scripts: 0 });
      p.states += x.states;
      p.scripts += x.scripts.length;
      total.programs += new Set(x.scripts.map((s) => s.seed)).size;
    }
    const scripts = explored.flatMap((x) => x.scripts);
    const per = Math.max(20, Math.min(CHUNK, Math.ceil(scripts.length / CORES)));
    const chunks = [];
    for (let k = 0; k < scripts.length; k += per) chunks.push(scripts.slice(k, k + per));
    const results = await pool(chunks, CORES, (c) => perform(c, bundle, useSeed));
    total.traces += scripts.length;
    total.rounds++;
    let mine = [];
    for (const r of results) {
      total.events += r.events;
      sample ??= r.sample;
      for (const m of r.mm) {
        if (prop.claims(m) && (!prop.ops || prop.ops.test(m.op || 'none') || !m.op)) mine.push(m);
        else otherTags[m.c] = (otherTags[m.c] ?? 0) + 1;
      }
    }
    if (prop.solo && mine.length) mine = await notAlone(mine, bundle, useSeed);
    for (const m of mine) {
      const k = known.find((f) => f.tag === m.c && f.op === m.op);
      if (k) seenKnown.set(k, (seenKnown.get(k) ?? 0) + 1);
      else violations.push(m);
    }
    if (violations.length || elapsed() > BUDGET || tier === 'quick') break;
  }
  for (const [k, n] of seenKnown) console.log(`KNOWN-FINDING: property=${id} ${k.text} (${k.op}, ${n} cases)`);

  let replay;
  if (violations.length) {
    const dir = path.join(ROOT, 'evidence', 'replay');
    fs.mkdirSync(dir, { recursive: true });
    replay = path.join(dir, `${id}.json`);
    const groups = new Map();
    for (const m of violations) {
      const key = `${m.op} ${m.c}`;
      if (!groups.has(key)) groups.set(key, { op: m.op, tag: m.c, count: 0, first: m });
      groups.get(key).count++;
    }
    fs.writeFileSync(
      replay,
      JSON.stringify(
        {
          property: id, tier, seed,
          replay: 'node bin/replay.mjs <this file>',
          differences: [...groups.values()].slice(0, 40).map((g) => ({
            op: g.op, tag: g.tag, count: g.count, detail: g.first.d, scenario: g.first.s, seed: g.first.seed,
            event: g.first.at, script: g.first.script, events: g.first.events,
          })),
        },
        null,
        1,
      ),
    );
    for (const g of [...groups.values()].slice(0, 20))
      console.log(`  ${g.op || '(no call)'}: ${g.tag} ${String(g.first.d).slice(0, 200)} (${g.count} times; first in ${g.first.s})`);
  }
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(
    path.join(ROOT, 'evidence', `${id}.json`),
    JSON.stringify(
      {
        property: id, tier, seed, level: 'model_checking',
        coverage: {
          states: total.states,
          transitions: total.transitions,
          traces_validated_against_impl: total.traces,
          events_validated: total.events,
          programs: total.programs,
          rounds: total.rounds,
          suites: perSuite,
          exhaustive: false,
          known_findings_seen: [...seenKnown].map(([k, n]) => ({ op: k.op, tag: k.tag, cases: n })),
          differences_outside_this_property: otherTags,
          samples: [sample],
        },
        assumptions: [
          'the platform (fetch, Headers, FormData, URL, Response, JSON) and postal-mime behave as in this Node version',
          'inputs are drawn from the value classes of spec/Shapes.tla and harness/docs.mjs; environment choices are those of spec/Gen.tla',
        ],
        wall_s: Math.round(elapsed() * 10) / 10,
        violations: violations.length,
      },
      null,
      1,
    ),
  );
  console.log(
    `${id} ${tier}: ${total.states} states, ${total.traces} behaviours performed, ${total.events} events checked, ` +
      `${violations.length} violations, ${elapsed().toFixed(1)} s`,
  );
  if (violations.length) {
    console.log(`VIOLATION property=${id} replay=${replay}`);
    return 1;
  }
  return 0;
}

// Differences that do not occur when the call is made alone, with the same
// arguments and responses
async function notAlone(mine, bundle, useSeed) {
  const first = new Map();
  for (const m of mine) {
    const key = `${m.op} ${m.c} ${m.d.slice(0, 60)}`;
    if (!first.has(key)) first.set(key, []);
    if (first.get(key).length < 3) first.get(key).push(m);
  }
  const picked = [...first.values()].flat().slice(0, 300);
  const solos = picked.map((m, k) => soloScript(m, `solo${k}`)).filter(Boolean);
  const alone = new Set();
  const parts = [];
  for (let k = 0; k < solos.length; k += 40) parts.push(solos.slice(k, k + 40));
  for (const r of await pool(parts, CORES, (c) => perform(c, bundle, useSeed)))
    for (const m of r.mm) alone.add(`${m.s} ${m.c}`);
  return picked.filter((_, k) => !alone.has(`solo${k} ${picked[k].c}`));
}

main().then(
  (code) => process.exit(code),
  (err) => {
    console.error(err instanceof Broken ? `check broken: ${err.message}` : err);
    process.exit(2);
  },
);
