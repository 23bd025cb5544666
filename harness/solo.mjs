// The script in which one call of a recorded scenario is made alone: a fresh
// client of the same configuration, the same arguments, the same responses.
const plain = (d) => d;

export function soloScript(m, id) {
  const events = m.events ?? [];
  const call = events.find((e) => e.e === 'call' && e.i === m.call);
  if (!call) return undefined;
  const scn = events[0];
  const steps = [];
  let env = [];
  for (const e of events) {
    if (e === call) break;
    if (e.e === 'env') env = e.env;
    if (e.e === 'new') {
      steps.push({ x: 'env', set: env });
      if (e.c === call.c) {
        steps.push({ x: 'new', c: e.c, key: e.key, opts: e.opts });
        break;
      }
      steps.pop();
    }
  }
  steps.push({ x: 'env', set: env });
  steps.push({ x: 'call', i: call.i, c: call.c, op: call.op, args: call.args.map(plain), aw: call.aw, par: '', freeze: false, same: '', nodrain: false });
  for (const e of events) {
    if (e.i !== call.i) continue;
    if (e.e === 'rendered') steps.push({ x: 'rendered', i: call.i, ok: e.ok, node: e.node });
    if (e.e === 'resp') {
      const r = e.r;
      steps.push({
        x: 'reply', i: call.i,
        r: r.kind === 'net' ? { kind: 'net', nk: r.nk ?? 'type' }
          : { kind: 'http', status: r.status, bt: r.bt === 'text' ? 'raw' : r.bt, d: r.d, h: r.h, ws: false, nk: r.nk ?? '', raw: { k: 'b64', v: r.b64 } },
      });
    }
  }
  return { id, seed: id, renderer: scn.renderer, proc: m.script?.proc ?? 'present', about: '', steps };
}
