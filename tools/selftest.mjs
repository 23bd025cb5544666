// Does the monitor see?  node tools/selftest.mjs SUITE [scenarios] [mutations]
// Records executions of the SDK, changes one observed detail of one event in
// each copy, and lists the kinds of changes Trace.tla says nothing about.
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { build, version } from '../harness/build.mjs';
import { MODELS } from '../harness/claims.mjs';
import { rng } from '../harness/docs.mjs';

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const [suite, nScn = '80', nMut = '40'] = process.argv.slice(2);
const JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'selftest-'));
process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true }));
const tlc = (name, mod, env, workers) => {
  const out = path.join(tmp, name);
  const fd = fs.openSync(out, 'w');
  spawnSync('java', ['-XX:+UseParallelGC', '-Xss64m', '-Xmx6g', '-cp', JAR, 'tlc2.TLC', '-metadir', `${out}.m`, '-noGenerateSpecTE',
    '-workers', String(workers), '-config', `${mod}.cfg`, `${mod}.tla`], { cwd: path.join(ROOT, 'spec'), env: { ...process.env, ...env }, stdio: ['ignore', fd, fd] });
  fs.closeSync(fd);
  return fs.readFileSync(out, 'utf8').split('\n');
};
const parse = (ls, pre) => ls.filter((l) => l.startsWith(`"${pre} `)).map((l) => JSON.parse(JSON.parse(l).slice(pre.length + 1)));
const r = rng(Number(process.env.VERIF_SEED ?? 1));
const at = (a) => a[Math.floor(r() * a.length)];

const model = MODELS[suite] ?? 'Model';
let scripts = parse(tlc('model', model, { SUITE: suite, SEED: '1', TIER: 'quick' }, 8), 'SC').map((s, n) => ({ ...s, id: `${suite}:${s.id}.${n}` }));
scripts = Array.from({ length: Math.min(Number(nScn), scripts.length) }, () => at(scripts)).map((s, n) => ({ ...s, id: `${s.id}@${n}` }));
await build(path.join(tmp, 'b'));
fs.writeFileSync(path.join(tmp, 'scn'), scripts.map((s) => `${JSON.stringify(s)}\n`).join(''));
spawnSync(process.execPath, [path.join(ROOT, 'harness/run.mjs'), path.join(tmp, 'scn'), path.join(tmp, 'trace'), path.join(tmp, 'b'), version(), '1'], { stdio: 'inherit' });
const scns = [];
for (const l of fs.readFileSync(path.join(tmp, 'trace'), 'utf8').split('\n').filter(Boolean)) {
  const e = JSON.parse(l);
  if (e.e === 'scn') scns.push([]);
  scns.at(-1).push(e);
}

// every place of a document that can be changed
function places(d, put, kind, out) {
  if (d === undefined || d === null) return;
  switch (d.k) {
    case 's': out.push([`${kind}:string`, () => put({ k: 's', v: `${d.v}~` })], [`${kind}:string-null`, () => put({ k: 'z' })]);
      if (d.v.length > 1) out.push([`${kind}:string-cut`, () => put({ k: 's', v: d.v.slice(0, -1) })]);
      break;
    case 'n': out.push([`${kind}:number`, () => put({ k: 'n', v: String(JSON.parse(d.v) + 1) })], [`${kind}:number-text`, () => put({ k: 's', v: d.v })]); break;
    case 'b': out.push([`${kind}:bool`, () => put({ k: 'b', v: d.v === 'true' ? 'false' : 'true' })]); break;
    case 'z': out.push([`${kind}:null`, () => put({ k: 's', v: '' })]); break;
    case 'a':
      d.c.forEach((x, i) => places(x, (y) => { d.c[i] = y; }, `${kind}[]`, out));
      if (d.c.length) out.push([`${kind}:drop-item`, () => d.c.splice(Math.floor(r() * d.c.length), 1)]);
      if (d.c.length > 1 && JSON.stringify(d.c[0]) !== JSON.stringify(d.c.at(-1))) out.push([`${kind}:reverse`, () => d.c.reverse()]);
      out.push([`${kind}:add-item`, () => d.c.push({ k: 's', v: 'more' })]);
      break;
    case 'o':
      d.f.forEach((p, i) => places(p[1], (y) => { p[1] = y; }, `${kind}.`, out));
      d.f.forEach((p, i) => p[1].k !== 'u' && out.push([`${kind}:drop-field`, () => d.f.splice(i, 1)], [`${kind}:rename-field`, () => { p[0] += '_'; }]));
      out.push([`${kind}:add-field`, () => d.f.push(['extra_field', { k: 's', v: 'x' }])]);
      break;
  }
}
const pairs = (list, kind, out) => {
  list.forEach((p, i) => out.push([`${kind}:drop ${p[0].slice(0, 14)}`, () => list.splice(i, 1)], [`${kind}:value ${p[0].slice(0, 14)}`, () => { p[1] += '~'; }]));
  out.push([`${kind}:add`, () => list.push(['x-extra', '1'])]);
};
function changes(evs) {
  const out = [];
  evs.forEach((e, n) => {
    switch (e.e) {
      case 'fetch':
        out.push(['fetch:method', () => { e.m = e.m === 'GET' ? 'POST' : 'GET'; }], ['fetch:origin', () => { e.origin += 'x'; e.href = `x${e.href}`; }],
          ['fetch:drop', () => evs.splice(n, 1)], ['fetch:twice', () => evs.splice(n, 0, { ...e, n: e.n + 1000 })], ['fetch:frag', () => { e.frag = '#x'; }]);
        e.segs.forEach((s, i) => out.push(['fetch:seg', () => { e.segs[i] += 'x'; e.href += 'x'; }]));
        out.push(['fetch:seg-add', () => { e.segs.push('x'); e.href += '/x'; }], ['fetch:seg-drop', () => { e.segs.pop(); e.href += '/x'; }]);
        pairs(e.q, 'fetch:query', out);
        pairs(e.h, 'fetch:header', out);
        if (e.body.t === 'json') places(e.body.d, (y) => { e.body.d = y; }, 'fetch:body', out);
        if (e.body.t === 'form') e.body.parts.forEach((p, i) => {
          out.push([`fetch:part-drop`, () => e.body.parts.splice(i, 1)], ['fetch:part-twice', () => e.body.parts.push(p)]);
          if (p.t === 'text') out.push([`fetch:part-text ${p.name}`, () => { p.v += '~'; if (p.json) p.json = { k: 's', v: 'x' }; }]);
          else out.push(['fetch:part-bytes', () => { p.b64 = `AAAA${p.b64}`; }], ['fetch:part-type', () => { p.type += 'x'; }], ['fetch:part-name', () => { p.file += 'x'; }]);
        });
        break;
      case 'settle': places(e.v, (y) => { e.v = y; }, `settle:${e.ok ? 'ok' : 'rejected'}`, out);
        out.push(['settle:flip', () => { e.ok = !e.ok; }], ['settle:drop', () => evs.splice(n, 1)]);
        break;
      case 'log': places(e.error, (y) => { e.error = y; }, 'log', out); out.push(['log:drop', () => evs.splice(n, 1)], ['log:twice', () => evs.splice(n, 0, e)], ['log:seg', () => { e.segs.push('x'); }], ['log:status', () => { e.status = { k: 'n', v: '777' }; }]); break;
      case 'render': out.push(['render:drop', () => evs.splice(n, 1)], ['render:node', () => { e.node = 'other'; }]); break;
      case 'args': e.args.forEach((d, i) => places(d, (y) => { e.args[i] = y; }, 'args', out)); break;
      case 'hook': out.push(['hook:flip', () => { e.ok = !e.ok; }], ['hook:later', () => { e.later = !e.later; }], ['hook:modified', () => { e.modified = !e.modified; }]); if (e.ok) places(e.v, (y) => { e.v = y; }, 'hook', out); break;
      case 'walk': out.push(['walk:seen', () => places(e.seen, (y) => { e.seen = y; }, '', [])], ['walk:over', () => { e.over = !e.over; }]); break;
      case 'new': out.push(['new:base', () => { e.base += 'x'; }], ['new:ua', () => { e.ua += 'x'; }], ['new:out', () => { e.out = e.out === 'ok' ? 'x' : 'ok'; }]); break;
      case 'unhandled': out.push(['unhandled:drop', () => evs.splice(n, 1)]); break;
    }
  });
  out.push(['unhandled:add', () => evs.splice(evs.length - 1, 0, { e: 'unhandled', v: { k: 's', v: 'x' } })]);
  return out;
}
const kinds = new Map();
const file = path.join(tmp, 'mutated');
const fd = fs.openSync(file, 'w');
let m = 0;
const meta = new Map();
for (const s of scns) {
  for (let k = 0; k < Number(nMut); k++) {
    const copy = JSON.parse(JSON.stringify(s));
    const cs = changes(copy);
    // an even choice over the kinds first
    const kind = at([...new Set(cs.map((c) => c[0]))]);
    at(cs.filter((c) => c[0] === kind))[1]();
    copy[0].id = `m${m++}`;
    meta.set(copy[0].id, { kind, from: s[0].id });
    fs.writeSync(fd, copy.map((e) => `${JSON.stringify(e)}\n`).join(''));
  }
}
fs.closeSync(fd);
const lines = tlc('trace', 'Trace', { TRACE: file }, 1);
if (!lines.some((l) => l.startsWith('"DONE'))) console.log(lines.slice(-30).join('\n'));
const seen = new Set(parse(lines, 'MM').map((x) => x.s));
for (const [id, { kind, from }] of meta) {
  const c = kinds.get(kind) ?? { n: 0, missed: 0, ex: '' };
  kinds.set(kind, c);
  c.n++;
  if (!seen.has(id)) { c.missed++; c.ex ||= from; }
}
let all = 0, missed = 0;
for (const [kind, c] of [...kinds].sort()) {
  all += c.n; missed += c.missed;
  if (c.missed) console.log(`${kind}: ${c.missed} of ${c.n} unnoticed, e.g. ${c.ex}`);
}
console.log(`${suite}: ${all} changes, ${missed} unnoticed`);
