// JSON documents in the form Doc.tla describes: encoding of JavaScript values,
// concrete values for the value classes the specification generates.
import { Buffer } from 'node:buffer';

// Injective ASCII form of a string
export function esc(s) {
  let out = '';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c < 32 || c > 126 || c === 92 || c === 34) out += '\\u' + c.toString(16).padStart(4, '0');
    else out += s[i];
  }
  return out;
}
export const unesc = (s) => s.replace(/\\u([0-9a-f]{4})/g, (_, h) => String.fromCharCode(parseInt(h, 16)));

export const U = { k: 'u' };
export const Z = { k: 'z' };
export const S = (s) => ({ k: 's', v: esc(s) });
export const O = (pairs) => ({ k: 'o', f: pairs });

// kind of special objects created for arguments
export const special = new WeakMap();
// React content that is no object: its text or number, and its name
export const plainNodes = new Map();

export function encode(v, seen = []) {
  if (v === undefined) return U;
  if (v === null) return Z;
  if (plainNodes.has(v)) return { k: 'react', v: plainNodes.get(v) };
  switch (typeof v) {
    case 'string':
      return S(v);
    case 'number':
      return Number.isFinite(v) ? { k: 'n', v: JSON.stringify(v) } : Z;
    case 'boolean':
      return { k: 'b', v: String(v) };
    case 'bigint':
      return { k: 'bigint', v: String(v) };
    case 'function':
    case 'symbol':
      return { k: 'fn', v: '' };
  }
  const sp = special.get(v);
  if (sp) {
    if (sp.k === 'react') return { k: 'react', v: sp.v };
    if (sp.k === 'file') return sp.doc;
    if (sp.k === 'hdr') {
      const e =
        sp.form === 'list' ? v : sp.form === 'headers' ? [...v.entries()] : Object.entries(v);
      return { k: 'hdr', form: sp.form, f: e.map((p) => [esc(String(p[0]).toLowerCase()), esc(String(p[1]))]) };
    }
    if (sp.k === 'err') return O([['name', S(String(v.name))], ['message', S(String(v.message))], ['id', S(sp.v)]]);
  }
  if (seen.includes(v)) return { k: 'cycle' };
  const deeper = [...seen, v];
  if (v instanceof Error)
    return O([['name', S(String(v.name))], ['message', S(String(v.message))], ['id', S(errorId(v))]]);
  if (v instanceof Date) return { k: 'date', v: Number.isNaN(v.getTime()) ? '' : v.toISOString() };
  if (v instanceof Headers)
    return { k: 'hdr', form: 'headers', f: [...v.entries()].map((p) => [esc(p[0]), esc(p[1])]) };
  if (ArrayBuffer.isView(v)) return { k: 'buf', j: encode(JSON.parse(JSON.stringify(v)), deeper) };
  if (Array.isArray(v)) {
    const c = [];
    for (let i = 0; i < v.length; i++) c.push(encode(v[i], deeper));
    return { k: 'a', c };
  }
  return O(Object.keys(v).map((key) => [esc(key), encode(v[key], deeper)]));
}
// An injected failure, also when wrapped or only its text survives
function errorId(e) {
  for (let x = e, n = 0; x && n < 5; x = x.cause, n++) {
    const sp = typeof x === 'object' ? special.get(x) : undefined;
    if (sp?.k === 'err') return sp.v;
  }
  const m = /injected:([a-z0-9]+)/.exec(String(e.message));
  return m ? m[1] : '';
}

// ------------------------------------------------------------ random values
export function rng(seed) {
  let a = seed >>> 0 || 1;
  return () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = Math.imul(a ^ (a >>> 15), a | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  };
}
export function hash(s) {
  let h = 2166136261;
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619);
  return h >>> 0;
}

const STR = [
  'plain', 'two words', 'Zoë & Søn', '"quoted" \\ back', "it's", 'line\nbreak\ttab', '日本語テキスト', '😀 emoji',
  '<b>html</b> &amp;', 'a=b&c=d', '100%', '%41%2F', 'null', 'undefined', 'false', '0', '{"json":true}', '[1,2]',
  'snake_case_value', 'camelCaseValue', ' leading and trailing ', 'semi;colon,comma', '\u0000nul', '\u2028sep',
  'x'.repeat(300), 'ümläut', 'true', 'NaN', '__proto__', 'constructor', 'a/b?c#d', '+1 (555) 000', 'Fwd: x',
  'one\r\ntwo\r\n', 'e\u0301 decomposed', 'nbsp\u00a0x', '\ufeffbom', 'tab\tend\t', 'a  b   c', '\u0001\u007fctl', '<%= x %> ${y} {{z}}',
];
const KEYS = [
  'firstName', 'first_name', 'replyTo', 'reply_to', 'eventName', 'camelCase', 'snake_case', 'UPPER', 'with space',
  'dotted.key', '__proto__', 'constructor', 'toString', '0', '10', 'ключ', 'a-b', 'html', 'react', 'contentType',
  'segmentId', 'scheduledAt', 'fallbackValue', 'id', 'email', '$ref', '', 'x"y', 'type', 'length', 'data', 'headers',
];
const IDS = [
  'fd61172c-cafc-40f5-b049-b45947779a29', 'abc', '0', 'ID_with-dash.dot~tilde', 'null', 'undefined', 'create', 'claim',
  'batch', 'send', 'x'.repeat(80), '123456', 'import', 'metrics', 'Ünïcode', 'with space', 'plus+plus', 'a@b', 'a:b', "it's(1)*!",
];
const NASTY = {
  slash: ['a/b', '/lead', 'trail/', 'a//b', '../up', 'x/../../domains', './here'],
  question: ['a?b=c', '?limit=5', 'a?'],
  hash: ['a#b', '#frag', 'a#'],
  percent: ['a%2Fb', '100%', '%', 'a%20b', '%2e%2e', '%zz'],
  ampersand: ['a&b=c', 'x=y', 'a+b', 'a;b,c'],
  space: ['a b', ' lead', 'trail ', '\tx'],
  blanks: [' both ends ', '  lead', 'trail  ', ' a', 'b\u00a0 '],
  escapes: ['a%2fB%41', '%C3%A9', '%25', 'a%', '%E0%A4%A', '%2F%3F%23'],
  case: ['MiXeD-Case', 'ABC-def', 'ÀÉÎ', 'aB.C_d~E', 'ID+Tag@Example.ORG'],
  backslash: ['a\\b', '..\\up'],
  control: ['a\nb', 'a\rb', 'x\ty\nz'],
  unicode: ['Zoë', '日本', '😀'],
  dots: ['...', '.a', 'a..b', '..a'],
  long: ['x'.repeat(300), `${'y'.repeat(255)}z`, 'ab'.repeat(600), `${'é'.repeat(200)}e`],
};
export const nastyClasses = Object.keys(NASTY);

export function maker(seed) {
  const r = rng(seed);
  const pick = (a) => a[Math.floor(r() * a.length)];
  let n = 0;
  const named = new Map();
  const shared = new Map();
  const uniq = () => `${(++n).toString(36)}${Math.floor(r() * 1e6).toString(36)}`;
  const scalar = () => {
    switch (Math.floor(r() * 7)) {
      case 0: return null;
      case 1: return r() < 0.5;
      case 2: return 0;
      case 3: return pick([1, -1, 1.5, 42, 1e21, -0.001, 2147483648]);
      case 4: return '';
      default: return pick(STR) + uniq();
    }
  };
  const setKey = (o, k, v) =>
    Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
  // now and then very deep, or with many keys
  const deep = (d) => {
    const t = r();
    if (t < 0.06) {
      let v = nested(1);
      for (let i = 12; i > 0; i--) v = i % 3 ? setKey({}, pick(KEYS), v) : [v];
      return v;
    }
    if (t < 0.1) return Array.from({ length: 130 }, scalar);
    return nested(d);
  };
  const nested = (d) => {
    const t = r();
    if (d <= 0 || t < 0.4) return scalar();
    if (t < 0.6) return Array.from({ length: Math.floor(r() * 4) }, () => nested(d - 1));
    const o = {};
    for (let i = Math.floor(r() * 5); i > 0; i--) setKey(o, pick(KEYS), nested(d - 1));
    return o;
  };
  const objOf = (val, min = 1) => {
    const o = {};
    for (let i = min + Math.floor(r() * 4); i > 0; i--) setKey(o, pick(KEYS), val());
    if (r() < 0.08) for (let i = 0; i < 70; i++) setKey(o, `${pick(KEYS)}${uniq()}`, val());
    return o;
  };
  const gen = {
    str: () => {
      const [t, u, x] = [pick(STR), uniq(), r()];
      return x < 0.5 ? t + u : x < 0.75 ? u + t : u + t + uniq();
    },
    // long, with something to lose at either end
    long: () => {
      const n = pick([255, 256, 257, 998, 1024, 2000, 4096]);
      return pick(STR) + 'ab é'.repeat(n).slice(0, n) + uniq() + pick(STR);
    },
    hlong: () => `k${uniq()}${'y'.repeat(pick([64, 128, 255, 256, 300, 1000]))}${uniq()}`,
    addr: () => {
      const a = gen.email();
      return pick([a, a, `Acme <${a}>`, `"Acme, Inc." <${a}>`, `Zoë Ünï <${a}>`]);
    },
    id: () => (r() < 0.3 ? pick(IDS) : `${pick(['id', 'ev', 'seg', 'tpl', 'Id', 'EV_', 'Seg.'])}-${uniq()}`),
    safe: () => `${pick(['s', 's', 'S', 'n_', 'K-'])}${uniq()}`,
    email: () => `${pick(['user', 'First.Last', 'first.last', 'a+tag', "o'neil", 'ünï'])}${uniq()}@${pick(['example.com', 'sub.example.co.uk', 'EXAMPLE.org'])}`,
    q: () => gen.str(),
    url: () =>
      `${pick(['https://hooks.example.com', 'https://hooks.example.com', 'https://Hooks.Example.COM', 'http://localhost:3000', 'HTTPS://h.example:8443', 'https://api.resend.com.other.example', 'https://api.resend.comx'])}/${uniq()}${pick(['?x=1&y=%20z', '', '/', '/a//b', '#frag', '?', '?q=%2F&q=a+b', '/päth'])}`,
    date: () => pick(['2025-01-01T00:00:00.000Z', '2030-12-31T23:59:59+02:00', '2026-03-04T05:06:07.089Z', '2026-03-04',
      '1767225600', 'in 1 hour', 'in 1 min', 'Tomorrow at 9AM', 'Friday at 3pm ET', ' in 2 days ']) ,
    num: () => pick([1, 2, 7, 20, 99, 100, 1000, 3.5, -1]),
    lim: () => 1 + Math.floor(r() * 100),
    hval: () => `v ${uniq()} ${pick(['x', 'a=b; c', '"q"', 'text/plain', 'A,B'])}`,
    hname: () => `${pick(['X-Custom-', 'x-trace-', 'X-', 'Sdk-'])}${uniq()}`,
    any: () => deep(3),
    map: () => objOf(() => deep(2)),
    flat: () => objOf(scalar),
    smap: () => objOf(() => pick(['string', 'number', 'boolean', 'date'])),
    hmap: () => ({ [`X-Entity-${uniq()}`]: pick(STR) + uniq(), 'List-Unsubscribe': '<https://x.example/u>' }),
    key: () => `${pick(['re_', 're_', 're_', 're_', ' re_', 'RE-'])}${uniq()}Key${uniq()}${uniq()}`,
    ua: () => `agent-${uniq()}/1.0 (test)`,
    html: () => {
      const t = `<p>${pick(STR)}${uniq()}</p>`;
      return pick([t, t, `${t}\n`, `\r\n  ${t}`, `<!DOCTYPE html>\n<html><body>${t}&nbsp;<!-- x --></body></html>\n`, `{{{FIRST_NAME|there}}} ${t} `]);
    },
    b64: () => {
      const t = Buffer.from(`${pick(STR)}${uniq()}`).toString('base64');
      return pick([t, t, t.replace(/=+$/, ''), `data:text/plain;base64,${t}`, `${t}\r\n${t}\r\n`, t.replace(/\+/g, '-').replace(/\//g, '_')]);
    },
    text: () => pick(STR) + uniq(),
  };
  const make = (doc) => {
    if (doc.id) {
      const key = `${doc.ty}:${doc.id}`;
      if (!named.has(key)) named.set(key, produce(doc));
      return named.get(key);
    }
    return produce(doc);
  };
  const produce = (doc) => {
    if (doc.ty.startsWith('nasty:')) return pick(NASTY[doc.ty.slice(6)]);
    if (!gen[doc.ty]) throw new Error(`no value class ${doc.ty}`);
    return gen[doc.ty]();
  };
  const bytes = (len) => Uint8Array.from({ length: len }, () => Math.floor(r() * 256));
  return { r, pick, uniq, make, bytes, setKey, nested, shared };
}

// A JavaScript value for a generated document.  ctx: {mk, react(name), ref(doc)}
export function decode(doc, ctx) {
  switch (doc.k) {
    case 'u': return undefined;
    case 'z': return null;
    case 's': return unesc(doc.v);
    case 'n': return JSON.parse(doc.v);
    case 'b': return doc.v === 'true';
    case 'date': return new Date(doc.v);
    case 'buf': return doc.j.k === 'o' && doc.j.f.some((p) => p[0] === 'data') ? Buffer.from(decode(doc.j, ctx).data) : new Uint8Array(Object.values(decode(doc.j, ctx)));
    case 'tok': return ctx.mk.make(doc);
    case 'react': return ctx.react(doc.v);
    case 'ref': return ctx.ref(doc);
    case 'secret': return ctx.secret(doc);
    case 'bytes': return Buffer.from(ctx.mk.bytes(Math.floor(ctx.mk.r() * 20)));
    case 'file': {
      const b = doc.b64 !== undefined ? new Uint8Array(Buffer.from(doc.b64, 'base64')) : ctx.mk.bytes(doc.len ?? 40);
      const named = doc.name !== 'blob';
      const f = named ? new File([b], unesc(doc.name), { type: doc.type }) : new Blob([b], { type: doc.type });
      special.set(f, { k: 'file', doc: { k: 'file', name: doc.name, type: doc.type, b64: Buffer.from(b).toString('base64') } });
      return f;
    }
    case 'hdr': {
      const f = doc.f.map((p) => p.map((x) => (typeof x === 'string' ? unesc(x) : decode(x, ctx))));
      const o = doc.form === 'list' ? f : doc.form === 'headers' ? new Headers(f) : Object.fromEntries(f);
      special.set(o, { k: 'hdr', form: doc.form });
      return o;
    }
    case 'a':
    case 'o': {
      // sh: the same object or array wherever this name appears
      if (doc.sh) {
        if (!ctx.mk.shared.has(doc.sh)) ctx.mk.shared.set(doc.sh, decode({ ...doc, sh: undefined }, ctx));
        return ctx.mk.shared.get(doc.sh);
      }
      if (doc.k === 'a') return doc.c.map((x) => decode(x, ctx));
      const o = {};
      for (const [key, val] of doc.f) ctx.mk.setKey(o, unesc(key), decode(val, ctx));
      return o;
    }
    default:
      throw new Error(`cannot decode ${JSON.stringify(doc)}`);
  }
}
export function deepFreeze(v) {
  if (v === null || typeof v !== 'object' || Object.isFrozen(v)) return v;
  if (v instanceof Headers || v instanceof Blob || ArrayBuffer.isView(v)) return v;
  Object.freeze(v);
  for (const k of Object.keys(v)) deepFreeze(v[k]);
  return v;
}
