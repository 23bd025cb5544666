// Runs scenarios (sequences of environment actions, one JSON per line, as the
// specification generates them) against the real SDK and records what happens
// as the events Trace.tla reads.  It knows no operation: names, arguments,
// replies and expectations all come from the specification.
import { AsyncLocalStorage, AsyncResource } from 'node:async_hooks';
import { Buffer } from 'node:buffer';
import { createHmac } from 'node:crypto';
import fs from 'node:fs';
import { createRequire } from 'node:module';
import { inspect } from 'node:util';
import { decode, deepFreeze, encode, esc, hash, maker, O, plainNodes, S, special, U, unesc } from './docs.mjs';

const realProcess = globalThis.process;
const realConsole = globalThis.console;
const realSetTimeout = globalThis.setTimeout;
const realSetImmediate = globalThis.setImmediate;
const realDate = globalThis.Date;
const tick = () => new Promise((res) => realSetImmediate(res));
const nap = (ms) => new Promise((res) => realSetTimeout(res, ms));

const als = new AsyncLocalStorage();
let slowBudget = 12; // how many times a silent call may be waited for at length
let onUnhandled = () => {};
realProcess.on('unhandledRejection', (e) => onUnhandled(e));

const REPO = realProcess.env.VERIF_REPO || '/repo';
const PostalMime = (() => {
  const require = createRequire(`${REPO}/package.json`);
  const m = require('postal-mime');
  return m.default || m;
})();

function decodeSeg(s) {
  try {
    return decodeURIComponent(s);
  } catch {
    return `%!${s}`;
  }
}

export class Scenario {
  constructor(script, code, version, seed) {
    this.script = script;
    this.events = [];
    this.pendingParts = [];
    this.mk = maker(hash(`${seed}:${script.seed ?? script.id}`));
    this.clients = new Map();
    this.clientDocs = new Map();
    this.calls = new Map();
    this.reacts = new Map();
    this.kind = hash(`${seed}:${script.id}`);
    this.errors = 0;
    this.serial = 0;
    this.activity = 0;
    this.timers = new Map();
    this.timerId = 0;
    this.fired = 0;
    this.now = undefined;
    this.keys = [];
    this.servers = new Map();
    this.walks = new Map();
    this.version = version;
    this.env = {};
    this.proc = script.proc ?? 'present';
    this.fake = this.proc === 'absent' ? undefined : this.proc === 'noenv' ? {} : { env: this.env };
    this.code = code;
  }

  ev(e) {
    this.activity++;
    this.events.push(e);
    return e;
  }
  ctx() {
    return {
      mk: this.mk, react: (name) => this.react(name), ref: (doc) => this.ref(doc), secret: (doc) => this.secret(doc),
    };
  }
  react(name) {
    if (!this.reacts.has(name)) {
      // an element (of either generation of React), a list, a text or a number
      const how = hash(`${this.kind}:${name}`) % 10;
      const element = (props, kind) => Object.freeze({ $$typeof: Symbol.for(`react.${kind}`), type: 'div', key: null, ref: null, props, _owner: null });
      let node;
      if (how < 2) node = `⟦node ${name}⟧`;
      else if (how < 3) node = 770000000 + plainNodes.size;
      else if (how < 5) node = Object.freeze([element({ name }, 'element'), `text of ${name}`]);
      else node = element({ name, children: [`text of ${name}`] }, how < 7 ? 'element' : 'transitional.element');
      if (typeof node === 'object') special.set(node, { k: 'react', v: name });
      else plainNodes.set(node, name);
      this.reacts.set(name, node);
    }
    return this.reacts.get(name);
  }
  ref(doc) {
    let v = this.calls.get(doc.call)?.result;
    for (const p of doc.path) v = v == null ? undefined : typeof p === 'number' && p < 0 ? v[v.length + p] : v[p];
    return v;
  }
  leaks(parts) {
    const out = [];
    for (const [name, text] of parts) {
      if (!text) continue;
      for (const key of this.keys)
        if (
          text.includes(key) ||
          text.includes(encodeURIComponent(key)) ||
          text.includes(Buffer.from(key).toString('base64').replace(/=+$/, '').slice(0, -2)) ||
          text.includes([...key].reverse().join(''))
        )
          out.push(name);
    }
    return [...new Set(out)];
  }

  // ------------------------------------------------------------- the world
  install() {
    const self = this;
    const cons = {};
    for (const m of ['error', 'warn', 'log', 'info', 'debug', 'trace', 'dir', 'table'])
      cons[m] = (...args) => self.onLog(m, args);
    const setT = (fn, ms, ...args) => {
      const id = ++self.timerId;
      self.timers.set(id, { fn: AsyncResource.bind(() => fn(...args)), at: ms || 0, id });
      self.activity++;
      const h = { id, ref: () => h, unref: () => h, hasRef: () => true, refresh: () => h, [Symbol.toPrimitive]: () => id };
      return h;
    };
    const clearT = (h) => void self.timers.delete(typeof h === 'object' && h ? h.id : h);
    class FakeDate extends realDate {
      constructor(...a) {
        if (a.length === 0) super(FakeDate.now());
        else super(...a);
      }
      static now() {
        return self.now ?? realDate.now();
      }
    }
    // timeouts of signals are timers like any other
    this.realTimeout = AbortSignal.timeout;
    AbortSignal.timeout = (ms) => {
      const c = new AbortController();
      setT(() => c.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), ms);
      return c.signal;
    };
    const fetchStub = (input, init) => self.onFetch(input, init);
    const world = {
      process: this.fake,
      fetch: fetchStub,
      console: cons,
      setTimeout: setT,
      clearTimeout: clearT,
      setInterval: (fn, ms, ...a) => setT(fn, ms, ...a),
      clearInterval: clearT,
      Date: FakeDate,
    };
    this.saved = {};
    for (const k of Object.keys(world)) {
      this.saved[k] = Object.getOwnPropertyDescriptor(globalThis, k);
      Object.defineProperty(globalThis, k, { value: world[k], configurable: true, writable: true });
    }
    globalThis.__verifRender = (node) => self.onRender(node);
    onUnhandled = (e) => self.ev({ e: 'unhandled', v: encode(e) });
    this.sdk = new Function(...Object.keys(world), `${this.code}\n;return __sdk;`)(...Object.values(world));
  }
  uninstall() {
    AbortSignal.timeout = this.realTimeout;
    for (const [k, d] of Object.entries(this.saved)) Object.defineProperty(globalThis, k, d);
    globalThis.__verifRender = undefined;
    onUnhandled = () => {};
  }

  onLog(m, args) {
    const i = als.getStore()?.i ?? '';
    const obj = args.find((a) => a && typeof a === 'object' && !(a instanceof Error) && 'error' in a);
    const e = { e: 'log', i, m, error: U, status: U, segs: [], q: [], leak: [] };
    if (obj) {
      e.error = encode(obj.error);
      e.status = encode(obj.status);
      if (typeof obj.path === 'string') {
        const u = new URL(obj.path, 'http://p.example');
        e.segs = u.pathname.split('/').slice(1).map((s) => esc(decodeSeg(s)));
        e.q = [...u.searchParams].map(([k, v]) => [esc(k), esc(v)]);
      }
    }
    let text = '';
    for (const a of args) {
      text += ` ${typeof a === 'string' ? a : a instanceof Error ? `${a.message} ${a.stack}` : safeJson(a)}`;
    }
    e.leak = this.leaks([['text', text]]);
    this.ev(e);
  }

  // what the renderer makes of a node: nothing at all for nodes named e...
  rendering(node) {
    const t = `<p>rendered ${node} ${this.mk.uniq()}</p>`;
    if (node.startsWith('e')) return '';
    return this.mk.pick([t, t, `${t}\n`, `\n  ${t}`, `<!DOCTYPE html><html lang="en"><body>${t}é 日本 &amp; <!--$--></body></html>\n`, `<p>${'long '.repeat(400)}</p>${t}`]);
  }
  onRender(node) {
    const i = als.getStore()?.i ?? '';
    const name = (node && typeof node === 'object' ? special.get(node)?.v : plainNodes.get(node)) ?? '?';
    this.ev({ e: 'render', i, node: name });
    const call = this.calls.get(i);
    return new Promise((res, rej) => {
      if (!call) return;
      call.renders.push({ node: name, res, rej });
      // its outcome is already known: decided before it was asked for
      const known = call.outcomes.get(name);
      if (known) this.renderOutcome(i, call, name, known);
    });
  }
  renderOutcome(i, call, node, o) {
    const waiting = call.renders.filter((p) => p.node === node);
    call.renders = call.renders.filter((p) => p.node !== node);
    if (!o.told) {
      o.told = true;
      this.ev({ e: 'rendered', i, node, ok: o.ok, v: o.ok ? S(o.v) : encode(o.v) });
    }
    for (const p of waiting) (o.ok ? p.res : p.rej)(o.v);
  }

  onFetch(input, init = {}) {
    const i = als.getStore()?.i ?? '';
    const call = this.calls.get(i);
    const n = ++this.serial;
    const e = {
      e: 'fetch', i, n, m: '', href: '', alts: [], origin: '', segs: [], q: [], frag: '', rawp: '', h: [],
      body: { t: 'none' }, leak: [],
    };
    this.ev(e);
    const isReq = typeof Request !== 'undefined' && input instanceof Request;
    const href = isReq ? input.url : String(input);
    e.href = esc(href);
    e.m = String(init?.method ?? (isReq ? input.method : 'GET')).toUpperCase();
    let u;
    try {
      u = new URL(href);
    } catch {
      return Promise.reject(new TypeError('Failed to parse URL'));
    }
    // the addresses handed out so far which this one spells differently
    e.alts = [...(this.handed ?? [])].filter((x) => x !== href && URL.canParse(x) && new URL(x).href === u.href).map(esc);
    e.origin = u.origin;
    e.segs = u.pathname.split('/').slice(1).map((s) => esc(decodeSeg(s)));
    e.q = [...u.searchParams].map(([k, v]) => [esc(k), esc(v)]);
    e.frag = esc(u.hash);
    e.rawp = esc(href.slice(href.indexOf('://') < 0 ? 0 : href.indexOf('/', href.indexOf('://') + 3)));
    let headers;
    try {
      headers = new Headers(init?.headers ?? (isReq ? input.headers : undefined));
    } catch (err) {
      return Promise.reject(err);
    }
    const body = init?.body ?? (isReq ? input.body : undefined);
    const form = typeof FormData !== 'undefined' && body instanceof FormData;
    if (form && !headers.has('content-type')) headers.set('content-type', 'multipart/form-data');
    const ct = headers.get('content-type') ?? '';
    if (/^multipart\/form-data/i.test(ct)) headers.set('content-type', 'multipart/form-data');
    e.h = [...headers.entries()].map(([k, v]) => [esc(k), esc(v)]);
    this.pendingParts.push(
      this.readBody(body, form, ct).then(({ doc, text }) => {
        e.body = doc;
        e.leak = this.leaks([
          ['url', `${href} ${decodeSeg(href)}`],
          ['body', text],
          ['header', [...headers.entries()].filter(([k]) => k !== 'authorization').map((p) => p.join(':')).join('\n')],
        ]);
      }),
    );
    return new Promise((res, rej) => {
      const p = { n, res, rej, q: e.q, m: e.m, segs: e.segs, e };
      const signal = init?.signal ?? (isReq ? input.signal : undefined);
      if (signal?.aborted) rej(signal.reason);
      signal?.addEventListener?.('abort', () => rej(signal.reason));
      if (call) call.fetches.push(p);
    });
  }

  async readBody(body, form, ct) {
    const none = { doc: { t: 'none' }, text: '' };
    if (body === undefined || body === null) return none;
    const readForm = async (fd) => {
      const parts = [];
      let all = '';
      for (const [name, v] of fd.entries()) {
        if (typeof v === 'string') {
          all += `\n${v}`;
          let json = U;
          try {
            json = encode(JSON.parse(v));
          } catch {}
          parts.push({ name: esc(name), t: 'text', v: esc(v), json });
        } else {
          const b = Buffer.from(await v.arrayBuffer());
          all += `\n${b.toString('latin1')}`;
          parts.push({ name: esc(name), t: 'file', b64: b.toString('base64'), type: v.type, file: esc(v.name), json: U });
        }
      }
      return { doc: { t: 'form', parts }, text: all };
    };
    try {
      if (form) return await readForm(body);
      let text;
      if (typeof body === 'string') text = body;
      else if (/^multipart/i.test(ct))
        return await readForm(await new Response(body, { headers: { 'content-type': ct } }).formData());
      else text = await new Response(body).text();
      try {
        return { doc: { t: 'json', d: encode(JSON.parse(text)) }, text };
      } catch {
        return { doc: { t: 'text', v: esc(text) }, text };
      }
    } catch (err) {
      return { doc: { t: 'unreadable', v: esc(String(err)) }, text: '' };
    }
  }

  // ------------------------------------------------------------ the actions
  resolveUrl(doc) {
    return { k: 'url', href: doc.href, origin: doc.origin, pre: doc.pre };
  }
  // a document with its value classes replaced by concrete scalars
  concrete(doc) {
    if (doc.k === 'url') return [doc.href, this.resolveUrl(doc)];
    const v = decode(doc, this.ctx());
    return [v, encode(v)];
  }

  async step(a) {
    switch (a.x) {
      case 'env': {
        for (const [name, doc] of a.set) {
          const [v, d] = this.concrete(doc);
          this.envDocs ??= new Map();
          if (v === undefined) {
            delete this.env[name];
            this.envDocs.delete(name);
          } else {
            this.env[name] = v;
            this.envDocs.set(name, d);
            if (name === 'RESEND_API_KEY' && v) this.keys.push(v);
          }
        }
        this.ev({ e: 'env', env: [...(this.envDocs ?? new Map())] });
        return;
      }
      case 'new': {
        const [key, keyDoc] = this.concrete(a.key);
        const optPairs = [];
        let opts;
        if (a.opts.k === 'o') {
          opts = {};
          for (const [name, doc] of a.opts.f) {
            const [v, d] = this.concrete(doc);
            opts[name] = v;
            optPairs.push([name, d]);
          }
        }
        if (typeof key === 'string' && key) this.keys.push(key);
        const e = this.ev({ e: 'new', c: a.c, key: keyDoc, opts: O(optPairs), out: 'ok', base: '', ua: '', msg: '' });
        try {
          const client = opts === undefined ? new this.sdk.Resend(key) : new this.sdk.Resend(key, opts);
          this.clients.set(a.c, client);
          e.base = esc(String(client.baseUrl));
          e.ua = esc(String(client.userAgent));
        } catch (err) {
          e.out = 'throw';
          e.msg = esc(String(err?.message));
        }
        return;
      }
      case 'call':
        return this.call(a);
      case 'rendered': {
        const call = this.calls.get(a.i);
        if (!call || call.outcomes.has(a.node)) return this.skip(a);
        const o = { ok: a.ok, v: a.ok ? this.rendering(a.node) : this.failure('render'), told: false };
        call.outcomes.set(a.node, o);
        if (call.renders.some((p) => p.node === a.node)) this.renderOutcome(a.i, call, a.node, o);
        return;
      }
      case 'reply': {
        const call = this.calls.get(a.i);
        if (!call?.fetches.length) return this.skip(a);
        const p = call.fetches.shift();
        await this.reply(a.i, p, a.r);
        return;
      }
      case 'mutate': {
        const call = this.calls.get(a.i);
        if (!call) return this.skip(a);
        this.ev({ e: 'mutate', i: a.i });
        call.mutated = true;
        for (const arg of call.args) this.clobber(arg, 1);
        for (const [k, name, doc] of a.add ?? []) {
          const target = call.args[k - 1];
          if (target && typeof target === 'object') target[name] = decode(doc, this.ctx());
        }
        return;
      }
      case 'clock':
        this.now = a.s * 1000 + (a.ms ?? 0);
        return;
      case 'webhook':
        return this.webhook(a);
      case 'server':
        this.servers.set(a.n, {
          segs: a.segs.map((d) => esc(String(decode(d, this.ctx())))),
          items: a.items.map((x) => ({ id: decode(x.id, this.ctx()), f: x.f })),
        });
        return;
      case 'page':
        return this.page(a);
      case 'walked': {
        const w = this.walk(a.w);
        const ids = (docs) => docs.map((d) => S(decode(d, this.ctx())));
        const seen = (list) => list.map((x) => encode(x));
        this.ev({
          e: 'walk', w: a.w, op: w.op, over: w.over, failed: w.failed,
          seen: { k: 'a', c: seen(w.seen) }, back: { k: 'a', c: seen(w.back) },
          wantSeen: { k: 'a', c: ids(a.seen) }, wantBack: { k: 'a', c: ids(a.back) },
        });
        return;
      }
      default:
        throw new Error(`unknown action ${a.x}`);
    }
  }
  // ------------------------------------------------------------ webhooks
  keyBytes(name) {
    this.hookKeys ??= new Map();
    if (!this.hookKeys.has(name)) {
      const first = this.hookKeys.values().next().value;
      const how = this.mk.r();
      let key = Buffer.from(this.mk.bytes(24 + Math.floor(this.mk.r() * 41)));
      // keys that are alike but for one byte, near the end or the beginning
      if (first && how < 0.6) {
        key = Buffer.from(first);
        for (;;) {
          const at = how < 0.3 ? key.length - 1 : how < 0.5 ? 0 : Math.floor(this.mk.r() * key.length);
          key[at] = 1 + ((key[at] + Math.floor(this.mk.r() * 250)) % 255);
          if (![...this.hookKeys.values()].some((k) => k.equals(key))) break;
        }
      }
      this.hookKeys.set(name, key);
    }
    return this.hookKeys.get(name);
  }
  secret(doc) {
    const b64 = this.keyBytes(doc.key).toString('base64');
    switch (doc.form) {
      case 'plain': return b64;
      case 'prefixed': return `whsec_${b64}`;
      case 'empty': return '';
      case 'onlyprefix': return 'whsec_';
      case 'bad': return `${b64.slice(0, 8)}*(${b64.slice(8)}`;
      case 'undef': return undefined;
    }
    throw new Error(`secret form ${doc.form}`);
  }
  // the text of one signature
  signature(s, texts) {
    const mac = createHmac('sha256', this.keyBytes(s.key)).update(`${unesc(s.id)}.${s.ts}.${unesc(texts[s.pl])}`).digest();
    const b64 = mac.toString('base64');
    const at = 1 + Math.floor(this.mk.r() * 40);
    const flipped = () => b64.slice(0, at) + (b64[at] === 'A' ? 'B' : 'A') + b64.slice(at + 1);
    const code = {
      exact: () => b64,
      flip: flipped,
      trunc: () => b64.slice(0, 4 * Math.floor(at / 4)),
      longer: () => Buffer.concat([mac, Buffer.from('x')]).toString('base64'),
      none: () => '',
      case: () => (b64.toUpperCase() === b64 ? flipped() : b64.toUpperCase()),
      zero: () => Buffer.alloc(32).toString('base64'),
      noversion: () => b64,
      hex: () => mac.toString('hex'),
    }[s.form]();
    return s.form === 'noversion' ? code : `${s.v},${code}`;
  }
  webhook(a) {
    const client = this.clients.get(a.c);
    if (!client) return this.skip(a);
    const payload = unesc(a.texts[a.a.pl]);
    const arg = {
      payload,
      headers: { id: unesc(a.a.id), timestamp: a.a.ts.t, signature: a.a.sigs.map((s) => this.signature(s, a.texts)).join(' ') },
      webhookSecret: this.secret(a.a.secret),
    };
    for (const key of ['id', 'timestamp', 'signature']) {
      if (arg.headers[key] !== '' || a.a.miss === 'empty') continue;
      if (a.a.miss === 'key') delete arg.headers[key];
      else arg.headers[key] = a.a.miss === 'null' ? null : undefined;
    }
    const before = JSON.stringify(encode(arg));
    const e = this.ev({ e: 'hook', c: a.c, a: a.a, now: Math.floor((this.now ?? realDate.now()) / 1000), ok: true, v: U, later: false, modified: false });
    try {
      const v = als.run({ i: '' }, () => client.webhooks.verify(arg));
      e.later = typeof v?.then === 'function';
      e.v = encode(v);
      if (e.later) v.then(() => {}, () => {});
    } catch (err) {
      e.ok = false;
      e.v = encode(err);
    }
    e.modified = JSON.stringify(encode(arg)) !== before;
  }
  // ------------------------------------------------- walks and their server
  walk(name) {
    if (!this.walks.has(name))
      this.walks.set(name, { dir: 'after', page: 0, seen: [], back: [], last: undefined, over: false, failed: '', op: '' });
    return this.walks.get(name);
  }
  // one page of a walk, as a user would ask for it
  async page(a) {
    const w = this.walk(a.w);
    w.op = a.op;
    if (w.over || w.failed) return this.skip(a);
    const cursor = w.page === 0 ? undefined : w.dir === 'after' ? w.last.at(-1)?.id : w.last[0]?.id;
    if (w.page > 0 && cursor === undefined) {
      w.failed = 'no cursor';
      return this.skip(a);
    }
    const args = a.args.map((d) => (d.k === 'o' ? { ...d, f: d.f.filter((p) => p[1].k !== 'cursor') } : d));
    if (cursor !== undefined) {
      const f = [w.dir, S(cursor)];
      if (args.at(-1)?.k === 'o') args[args.length - 1] = { ...args.at(-1), f: [...args.at(-1).f, f] };
      else args.push({ k: 'o', f: [f] });
    }
    const i = `${a.w}p${++w.page}`;
    if (a.reuse && w.args) {
      const o = w.args.at(-1);
      delete o.after;
      delete o.before;
      if (cursor !== undefined) o[w.dir] = cursor;
      this.calls.get(w.call).mutated = true;
    }
    this.call({ x: 'call', i, c: a.c, op: a.op, args, aw: true, given: a.reuse ? w.args : undefined });
    const call = this.calls.get(i);
    w.args ??= call.args;
    w.call = i;
    await this.drain();
    this.quietEvent();
    for (let n = 0; n < 3 && call.fetches.length; n++) {
      await this.reply(i, call.fetches.shift(), { kind: 'pages' });
      await this.drain();
      this.quietEvent();
    }
    const page = call.result?.data;
    if (!call.settled || !Array.isArray(page?.data)) {
      w.failed = String(call.result?.error?.message ?? 'no list');
      return;
    }
    w.last = page.data;
    const ids = page.data.map((x) => x?.id);
    if (w.dir === 'after') w.seen.push(...ids);
    else w.back.unshift(...ids);
    if (page.has_more) return;
    if (w.dir === 'after' && ids.length) w.dir = 'before';
    else w.over = true;
  }
  pagesReply(p) {
    const server = [...this.servers.values()].find((x) => JSON.stringify(x.segs) === JSON.stringify(p.segs));
    const fail = (status, message) => ({ kind: 'http', status, bt: 'json', real: { statusCode: status, name: 'invalid', message }, h: [] });
    if (!server || p.m !== 'GET') return fail(404, 'Not found');
    const has = (n) => p.q.some(([x]) => x === n);
    const get = (n) => unesc(p.q.find(([x]) => x === n)?.[1] ?? '');
    const fits = server.items.filter((x) =>
      p.q.every(([n, v]) => ['limit', 'after', 'before'].includes(n) || x.f.some((f) => f[0] === n && f[1] === v)),
    );
    const limit = has('limit') ? (/^([1-9][0-9]?|100)$/.test(get('limit')) ? Number(get('limit')) : 0) : 20;
    let from = 0;
    let to = Math.min(limit, fits.length);
    let more = to < fits.length;
    const pg = { items: server.items.map((x) => ({ id: esc(x.id), f: x.f })), q: p.q };
    let bad = !limit || (has('after') && has('before'));
    if (!bad && (has('after') || has('before'))) {
      const k = fits.findIndex((x) => x.id === get(has('after') ? 'after' : 'before'));
      bad = k < 0;
      if (has('after')) {
        from = k + 1;
        to = Math.min(k + 1 + limit, fits.length);
        more = to < fits.length;
      } else {
        from = Math.max(0, k - limit);
        to = k;
        more = from > 0;
      }
    }
    if (bad) return { ...fail(422, 'Invalid pagination'), pg: { ...pg, ok: false, ids: [], more: false } };
    const page = fits.slice(from, to);
    return {
      kind: 'http', status: 200, bt: 'json', h: [],
      real: { object: 'list', has_more: more, data: page.map((x) => ({ id: x.id, name: `n${this.mk.uniq()}`, created_at: '2026-01-01T00:00:00.000Z' })) },
      pg: { ...pg, ok: true, ids: page.map((x) => esc(x.id)), more },
    };
  }
  // the server of Store.tla; Trace.tla checks that it is
  storeReply(p) {
    const st = (this.store ??= []);
    const m = p.m;
    const segs = p.segs;
    const body = p.e.body.t === 'json' ? p.e.body.d : U;
    const get = (d, key) => (d.k === 'o' ? d.f.find((x) => x[0] === key)?.[1] : undefined) ?? U;
    const without = (d, ...keys) => O(d.f.filter((x) => !keys.includes(x[0])));
    const merge = (f, d) => {
      const out = [...f.f];
      for (const x of d.f) {
        const at = out.findIndex((y) => y[0] === x[0]);
        if (at < 0) out.push(x);
        else out[at] = x;
      }
      return O(out);
    };
    const str = (d) => (['s', 'n', 'b'].includes(d.k) ? d.v : '');
    const list = (d) => (d.k === 'a' ? d.c : []);
    const s = (v) => ({ k: 's', v });
    const alt = { contacts: 'email', suppressions: 'email', events: 'name', templates: 'alias' };
    const fams = ['segments', 'contacts', 'contact-properties', 'domains', 'api-keys', 'broadcasts', 'templates', 'topics', 'webhooks', 'events', 'automations', 'suppressions', 'emails'];
    const named = (fam, key) => st.find((r) => r.fam === fam && (r.id === key || (alt[fam] && get(r.f, alt[fam]).k === 's' && get(r.f, alt[fam]).v === key)));
    const ids = Array.from({ length: 4 + list(body).length + list(get(body, 'emails')).length }, () => `n${this.mk.uniq()}`);
    const answer = (status, d) => ({ kind: 'http', status, bt: 'json', h: [], real: decode(d, this.ctx()), sv: { m, segs, body, ids, status, d } });
    const gone = () => answer(404, O([['statusCode', { k: 'n', v: '404' }], ['name', s('not_found')], ['message', s('Not found')]]));
    const short = (r) => [['object', s(r.fam)], ['id', s(r.id)]];
    const full = (r) => O([...short(r), ...without(r.f, 'id', 'object').f]);
    const listOf = (c) => answer(200, O([['object', s('list')], ['has_more', { k: 'b', v: 'false' }], ['data', { k: 'a', c }]]));
    const create = (fam, d, id) => {
      const r = { fam, id, f: d, segs: [], tops: [] };
      if (fam === 'contacts') {
        r.f = without(d, 'segments', 'topics');
        r.segs = list(get(d, 'segments')).map((x) => str(get(x, 'id')));
        r.tops = list(get(d, 'topics')).map((x) => [str(get(x, 'id')), str(get(x, 'subscription'))]);
      }
      st.push(r);
      return r;
    };
    const drop = (r) => {
      st.splice(st.indexOf(r), 1);
      if (r.fam === 'segments') for (const x of st) x.segs = x.segs.filter((y) => y !== r.id);
    };
    const onItem = (r) => {
      if (!r) return gone();
      if (m === 'GET') return answer(200, full(r));
      if (m === 'PATCH') {
        r.f = merge(r.f, without(body, 'id'));
        return answer(200, O(short(r)));
      }
      if (m !== 'DELETE') return gone();
      drop(r);
      return answer(200, O([...short(r), ['deleted', { k: 'b', v: 'true' }]]));
    };
    const made = (n) => answer(200, O([['data', { k: 'a', c: ids.slice(0, n).map((x) => O([['id', s(x)]])) }]]));
    const [a, b, c, d] = segs;
    const n = segs.length;
    const obj = body.k === 'o';
    if (n === 2 && m === 'POST' && a === 'emails' && b === 'batch' && body.k === 'a') {
      body.c.forEach((x, k) => create('emails', x, ids[k]));
      return made(body.c.length);
    }
    if (n === 3 && m === 'POST' && a === 'suppressions' && b === 'batch' && obj) {
      if (c === 'add') {
        const e = list(get(body, 'emails'));
        e.forEach((x, k) => create('suppressions', O([['email', s(str(x))]]), ids[k]));
        return made(e.length);
      }
      if (c === 'remove') {
        for (const x of [...list(get(body, 'emails')), ...list(get(body, 'ids'))]) {
          const r = named('suppressions', str(x));
          if (r) drop(r);
        }
        return made(0);
      }
    }
    if (n === 1 && fams.includes(a) && m === 'POST' && obj) {
      create(a, body, ids[0]);
      return answer(201, O([['object', s(a)], ['id', s(ids[0])]]));
    }
    if (n === 1 && fams.includes(a) && m === 'GET') return listOf(st.filter((r) => r.fam === a).map(full));
    if (n === 2 && fams.includes(a) && (m !== 'PATCH' || obj)) return onItem(named(a, b));
    if (n === 3 && a === 'audiences' && c === 'contacts' && m === 'POST' && obj) {
      if (!named('segments', b)) return gone();
      create('contacts', body, ids[0]).segs = [b];
      return answer(201, O([['object', s('contacts')], ['id', s(ids[0])]]));
    }
    if (n === 4 && a === 'audiences' && c === 'contacts' && (m !== 'PATCH' || obj)) {
      const r = named('contacts', d);
      return onItem(r?.segs.includes(b) ? r : undefined);
    }
    if (n === 3 && a === 'segments' && c === 'contacts' && m === 'GET')
      return named('segments', b) ? listOf(st.filter((r) => r.fam === 'contacts' && r.segs.includes(b)).map(full)) : gone();
    const con = a === 'contacts' ? named('contacts', b) : undefined;
    const topDoc = (t) => O([['id', s(t[0])], ['subscription', s(t[1])]]);
    if (n === 3 && a === 'contacts' && c === 'segments' && m === 'GET')
      return con ? listOf(con.segs.map((x) => O([['id', s(x)]]))) : gone();
    if (n === 4 && a === 'contacts' && c === 'segments' && (m === 'POST' || m === 'DELETE')) {
      if (!con || !named('segments', d)) return gone();
      con.segs = con.segs.filter((x) => m === 'POST' || x !== d);
      if (m === 'POST' && !con.segs.includes(d)) con.segs.push(d);
      return answer(200, O([['id', s(d)]]));
    }
    if (n === 3 && a === 'contacts' && c === 'topics' && m === 'GET') return con ? listOf(con.tops.map(topDoc)) : gone();
    if (n === 3 && a === 'contacts' && c === 'topics' && m === 'PATCH' && body.k === 'a') {
      if (!con) return gone();
      for (const x of body.c) {
        const t = [str(get(x, 'id')), str(get(x, 'subscription'))];
        const at = con.tops.findIndex((y) => y[0] === t[0]);
        if (at < 0) con.tops.push(t);
        else con.tops[at] = t;
      }
      return answer(200, O([['id', s(con.id)]]));
    }
    if (n === 3 && fams.includes(a) && m === 'POST' && c === 'duplicate') {
      const r = named(a, b);
      if (!r) return gone();
      st.push({ ...r, id: ids[0], f: without(r.f, 'alias') });
      return answer(201, O([['object', s(a)], ['id', s(ids[0])]]));
    }
    const done = { send: 'queued', cancel: 'canceled', publish: 'published', stop: 'stopped', verify: 'pending' };
    if (n === 3 && fams.includes(a) && m === 'POST' && Object.hasOwn(done, c)) {
      const r = named(a, b);
      if (!r) return gone();
      r.f = merge(merge(r.f, obj ? body : O([])), O([['status', s(done[c])]]));
      return answer(200, O(short(r)));
    }
    return gone();
  }
  skip(a) {
    this.ev({ e: 'skip', x: a.x, i: a.i ?? '' });
  }
  failure(kind) {
    const id = `e${++this.errors}${this.mk.uniq()}`;
    const err = new Error(`${kind} failed injected:${id}`);
    special.set(err, { k: 'err', v: id });
    return err;
  }
  clobber(arg, depth) {
    if (!arg || typeof arg !== 'object' || arg instanceof Blob || special.get(arg)?.k === 'react') return;
    if (arg instanceof Headers || special.get(arg)?.k === 'hdr') return;
    if (Array.isArray(arg)) {
      if (depth > 0) for (const x of arg) this.clobber(x, depth - 1);
      if (arg.some((x) => x && typeof x === 'object')) {
        arg.reverse();
        arg.push({ ...arg[0], subject: 'mutated-added', html: 'mutated-added' });
      }
      return;
    }
    for (const key of Object.keys(arg)) {
      const v = arg[key];
      if (special.get(v ?? Object)?.k === 'react') arg[key] = this.react(`mutated${this.mk.uniq()}`);
      else if (typeof v === 'string') arg[key] = `mutated-${this.mk.uniq()}`;
      else if (typeof v === 'boolean') arg[key] = !v;
      else if (key === 'headers' && v) arg[key] = { 'X-Mutated': 'mutated' };
      else delete arg[key];
    }
  }

  call(a) {
    const client = this.clients.get(a.c);
    if (!client) return this.skip(a);
    const argDocs = [];
    let args;
    if (a.same) args = this.calls.get(a.same).args;
    else if (a.given) args = a.given;
    else args = a.args.map((d) => (d.k === 'path' ? this.path(d) : decode(d, this.ctx())));
    if (a.freeze) args.forEach(deepFreeze);
    args.forEach((v, k) => argDocs.push(!a.same && a.args[k].k === 'path' ? this.pathDocs.get(a.args[k]) : a.same && typeof v === 'string' && this.calls.get(a.same).docs[k].k === 'path' ? this.calls.get(a.same).docs[k] : encode(v)));
    const aw = a.aw !== false;
    const call = { op: a.op, args, docs: argDocs, aw, par: a.par ?? '', renders: [], outcomes: new Map(), fetches: [], settled: false, watch: a.watch ?? false };
    this.calls.set(a.i, call);
    this.ev({ e: 'call', i: a.i, c: a.c, op: a.op, args: argDocs, par: a.par ?? '', aw });
    let out;
    try {
      als.run({ i: a.i }, () => {
        if (a.op === 'chain.publish') out = this.calls.get(a.par).out.publish();
        else {
          const names = a.op.split('.');
          let target = client;
          for (const name of names.slice(0, -1)) target = target[name];
          out = target[names.at(-1)](...args);
        }
      });
    } catch (err) {
      call.settled = true;
      this.settle(a.i, call, false, err);
      return;
    }
    call.out = out;
    if (!aw) return;
    als.run({ i: a.i }, () => {
      // exactly what `await` does with the value
      new Promise((res) => res(out)).then(
        (v) => this.settle(a.i, call, true, v),
        (err) => this.settle(a.i, call, false, err),
      );
    });
  }
  settle(i, call, ok, v) {
    call.settled = true;
    call.result = v;
    this.ev({ e: 'settle', i, ok, v: encode(v), leak: this.leaks([['text', ok ? safeJson(v) : `${v?.message} ${safeJson(v)}`]]) });
  }
  path(d) {
    const segs = d.segs.map((s) => (typeof s === 'string' ? unesc(s) : decode(s, this.ctx())));
    const q = d.q.map(([n, v]) => [unesc(n), typeof v === 'string' ? unesc(v) : decode(v, this.ctx())]);
    this.pathDocs ??= new Map();
    this.pathDocs.set(d, { k: 'path', segs: segs.map(esc), q: q.map(([n, v]) => [esc(n), esc(String(v))]) });
    const qs = new URLSearchParams(q).toString();
    return `/${segs.map(encodeURIComponent).join('/')}${qs ? `?${qs}` : ''}`;
  }

  async reply(i, p, spec) {
    let r = spec;
    if (spec.kind === 'table') r = this.tableReply(p, spec);
    if (spec.kind === 'pages') r = this.pagesReply(p);
    if (spec.kind === 'store') r = this.storeReply(p);
    if (r.kind === 'net') {
      const kinds = {
        type: () => new TypeError('fetch failed'),
        abort: () => new DOMException('This operation was aborted', 'AbortError'),
        string: () => 'socket hang up',
        undef: () => undefined,
        object: () => ({ code: 'ECONNRESET' }),
        syntax: () => new SyntaxError('bad chunk'),
      };
      this.ev({ e: 'resp', i, n: p.n, r: { kind: 'net', nk: r.nk } });
      p.rej((kinds[r.nk] ?? kinds.type)());
      return;
    }
    const h = (r.h ?? []).map((p) => p.map((x) => (x.k ? decode(x, this.ctx()) : unesc(x))));
    const rec = { kind: 'http', status: r.status, ok: r.status >= 200 && r.status < 300, bt: r.bt, d: U, h: [], b64: '', mime: U };
    const nullBody = [204, 205, 304].includes(r.status);
    let body = null;
    if (r.bt === 'json') {
      const v = r.real !== undefined ? r.real : decode(r.d, this.ctx());
      rec.d = encode(v);
      if (typeof v?.raw?.download_url === 'string') (this.handed ??= new Set()).add(v.raw.download_url);
      body = JSON.stringify(v);
      if (r.ws) body = `\n  ${body}\r\n`;
    } else if (r.bt === 'text' || r.bt === 'raw') {
      const b = r.bt === 'raw' ? rawMessage(r, this.mk) : Buffer.from(unesc(r.v), 'utf8');
      body = b;
      rec.bt = 'text';
      rec.b64 = (nullBody ? Buffer.alloc(0) : b).toString('base64');
      try {
        const m = await PostalMime.parse(nullBody ? Buffer.alloc(0) : b, { attachmentEncoding: 'base64' });
        rec.mime = encode({
          text: m.text, html: m.html,
          attachments: m.attachments.map((x) => ({
            filename: x.filename, content: String(x.content), mimeType: x.mimeType,
            ...(x.contentId !== undefined && { contentId: x.contentId }),
          })),
        });
      } catch {
        rec.mime = U;
      }
    } else if (r.bt === 'fail') {
      let sent = false;
      body = new ReadableStream({
        pull(c) {
          if (!sent) {
            sent = true;
            c.enqueue(Buffer.from('{"par'));
          } else c.error(r.nk === 'string' ? 'terminated' : r.nk === 'syntax' ? new SyntaxError('broken') : new TypeError('terminated'));
        },
      });
    }
    const res = new Response(nullBody ? null : body, { status: r.status, headers: h });
    if (nullBody) rec.bt = 'text';
    rec.h = Object.entries(Object.fromEntries(res.headers.entries())).map(([n, v]) => [esc(n), esc(v)]);
    this.ev({ e: 'resp', i, n: p.n, r: rec, ...(r.pg && { pg: r.pg }), ...(r.sv && { sv: r.sv }) });
    p.res(res);
  }
  tableReply(p, spec) {
    const get = (name) => p.q.find(([n]) => n === name)?.[1] ?? '';
    const row =
      spec.rows.find((row) => row.match.every(([n, v]) => get(n) === v)) ?? spec.rows.at(-1);
    return row.r;
  }

  // ---------------------------------------------------------------- quiet
  owes(call, seen = new Set()) {
    // may this call still be expected to do something without its environment?
    if (call.settled || !call.aw || call.fetches.length || call.renders.length) return false;
    if (call.par && !seen.has(call.par)) {
      seen.add(call.par);
      const par = this.calls.get(call.par);
      if (par && !par.settled && (par.fetches.length || par.renders.length)) return false;
    }
    return true;
  }
  async drain() {
    let quiet = 0;
    let rounds = 0;
    let slept = 0;
    for (;;) {
      const before = this.activity;
      await tick();
      if (this.pendingParts.length) await Promise.all(this.pendingParts.splice(0));
      if (this.activity !== before) {
        quiet = 0;
        if (++rounds > 5000) break;
        continue;
      }
      if (++quiet < 3) continue;
      if (this.timers.size && this.fired < 200) {
        const next = [...this.timers.values()].sort((x, y) => x.at - y.at || x.id - y.id)[0];
        this.timers.delete(next.id);
        this.fired++;
        this.activity++;
        if (this.now !== undefined) this.now += next.at;
        try {
          next.fn();
        } catch {}
        quiet = 0;
        continue;
      }
      if ([...this.calls.values()].some((c) => this.owes(c))) {
        const limit = slowBudget > 0 ? 1500 : 60;
        if (slept < limit) {
          await nap(5);
          slept += 5;
          quiet = 1;
          continue;
        }
        slowBudget--;
      }
      break;
    }
  }
  quietEvent() {
    this.ev({ e: 'quiet', ids: [...this.calls.keys()] });
    for (const [i, call] of this.calls) {
      if (call.mutated || call.checked) continue;
      const now = call.args.map((v, k) => (call.docs[k].k === 'path' ? call.docs[k] : encode(v)));
      if (call.watch || JSON.stringify(now) !== JSON.stringify(call.docs)) {
        if (call.settled) call.checked = !this.script.watchAll;
        this.ev({ e: 'args', i, before: call.docs, args: now });
      }
    }
  }

  async run() {
    this.ev({
      e: 'scn', id: this.script.id, renderer: this.script.renderer ?? 'ok',
      hasEnv: this.proc === 'present', ver: this.version, store: this.script.store === true,
    });
    this.install();
    try {
      for (const a of this.script.steps) {
        await this.step(a);
        if (!a.nodrain) {
          await this.drain();
          this.quietEvent();
        }
      }
      await this.drain();
      this.quietEvent();
    } finally {
      await Promise.all(this.pendingParts.splice(0));
      this.uninstall();
    }
    return this.events;
  }
}

// everything a value says, as JSON and as the console would print it
function safeJson(v) {
  if (typeof v === 'string') return v;
  let text = '';
  try {
    text = JSON.stringify(v) ?? '';
  } catch {}
  try {
    text += inspect(v, { depth: 6, maxStringLength: 20000, maxArrayLength: 50, showHidden: false, customInspect: true });
  } catch {}
  return text;
}

function rawMessage(r, mk) {
  if (r.raw.k === 'literal') return Buffer.from(unesc(r.raw.v), 'latin1');
  if (r.raw.k === 'b64') return Buffer.from(r.raw.v, 'base64');
  if (r.raw.k === 'bytes') return Buffer.from(mk.bytes(r.raw.n));
  if (r.raw.k === 'deep') {
    let text = 'From: a@b.example\r\n';
    for (let i = 0; i < r.raw.n; i++) text += `Content-Type: multipart/mixed; boundary=b${i}\r\n\r\n--b${i}\r\n`;
    return Buffer.from(`${text}Content-Type: text/plain\r\n\r\ndeep down\r\n`);
  }
  throw new Error('raw kind');
}
export { als };
