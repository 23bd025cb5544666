// Which suites of the specification decide a property, and which differences
// between the specification and the code count as breaking it.
const HEADER = /^req\.header\./;
const any = (...res) => (m) => res.some((r) => (r instanceof RegExp ? r.test(m.c) : r(m)));
const not = (r) => (m) => !r.test(m.c);
const both = (a, b) => (m) => a(m) && b(m);

// the model a suite belongs to, where it is not Model.tla
export const MODELS = { webhook: 'HookModel', paging: 'PageModel', store: 'StoreModel' };

export const PROPERTIES = {
  C01: {
    suites: ['endpoints', 'mix'],
    claims: any(/^req\.(method|path|verbatim|frag|origin|missing|unexpected)$/, /^res\.(refused|early|rejected|missing)$/),
  },
  C02: { suites: ['bodies', 'endpoints', 'mix'], claims: any(/^req\.(body|form)$/) },
  C03: { suites: ['queries', 'endpoints', 'mix'], claims: any(/^req\.query$/) },
  C04: { suites: ['ids'], claims: any(/^req\.(path|frag|verbatim|query|origin|method|missing|unexpected)$/, /^res\.(refused|early|rejected)$/) },
  C05: { suites: ['once', 'refusals', 'chain', 'forward', 'react', 'mix'], claims: any(/^req\.(unexpected|missing)$/, /^res\.(refused|early)$/) },
  C06: {
    suites: ['outcomes', 'chain', 'forward', 'mix'],
    claims: any(/^res\.(data|error|headers|shape|missing|early|unhandled|refused|rejected)$/),
  },
  C07: { suites: ['conc', 'concdeep', 'mix'], claims: () => true, solo: true },
  C08: {
    suites: ['headers', 'config', 'mix'],
    claims: both(any(HEADER), not(/^req\.header\.\+?idempotency-key$/)),
  },
  C09: { suites: ['idempotency', 'headers', 'mix'], claims: any(/^req\.header\.\+?idempotency-key$/) },
  C10: {
    suites: ['config', 'mix'],
    claims: any(/^cfg\./, /^req\.(origin|path)$/, /^req\.header\.\+?(authorization|user-agent)$/),
  },
  C11: {
    suites: ['secrets', 'forward', 'mix'],
    claims: any(/^leak$/, /^dl\.header\./, /^req\.origin$/, /^req\.header\.authorization$/),
  },
  C12: {
    suites: ['refusals', 'mix'],
    claims: any(/^req\.(unexpected|missing)$/, /^res\.(refused|early|rejected|missing|error|headers|data|shape|unhandled)$/),
  },
  C13: {
    suites: ['react'],
    claims: any(
      /^render\./, /^req\.(unexpected|missing)$/, /^res\.(refused|early|rejected|notrejected|reason|missing|unhandled)$/,
      (m) => m.c === 'req.body' && /html|react/.test(m.d),
    ),
  },
  C14: {
    suites: ['frozen', 'webhook'],
    claims: any(/^(arg|webhook)\.modified$/, /^req\.(body|query|path|form|unexpected|missing)$/, HEADER, /^render\./, /^res\.(refused|early|rejected|unhandled)$/),
  },
  C15: {
    suites: ['chain'],
    claims: any(/^req\.(path|method|unexpected|missing|verbatim)$/, /^res\./),
    ops: /^(chain\.publish|templates\.(create|duplicate))$/,
  },
  C16: {
    suites: ['forward'],
    claims: any(/^dl\./, /^req\.(body|path|method|unexpected|missing|verbatim)$/, /^res\./),
  },
  C17: { suites: ['webhook'], claims: any(/^webhook\.(accepted|rejected|payload|later)$/) },
  C18: {
    suites: ['batch'],
    claims: any(/^req\.(body|path|method|unexpected|missing)$/, /^req\.header\.\+?x-batch-validation$/, /^render\./, /^res\./),
    ops: /^batch\./,
  },
  C19: {
    suites: ['import'],
    claims: any(/^req\.(form|path|method|unexpected|missing|query)$/, HEADER, /^res\.(refused|early|rejected)$/),
    ops: /^contacts\.imports\.create$/,
  },
  C20: { suites: ['props'], claims: any(/^res\./), ops: /^contactProperties\./ },
  C21: { suites: ['logs', 'mix'], claims: any(/^log\./) },
  C22: { suites: ['mutate'], claims: any(/^req\./, /^render\.unexpected$/, /^dl\./, /^res\.(refused|early|rejected)$/) },
  C23: { suites: ['paging'], claims: any(/^page\./) },
  C24: { suites: ['store'], claims: any(/^store\./) },
};
