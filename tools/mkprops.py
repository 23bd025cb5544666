#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here, readable)."""
import json, os
R='src/resend.ts'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ALL=['src/api-keys/api-keys.ts','src/automations/automations.ts','src/automation-runs/automation-runs.ts','src/batch/batch.ts','src/broadcasts/broadcasts.ts','src/contact-properties/contact-properties.ts','src/contacts/contacts.ts','src/contacts/imports/contact-imports.ts','src/contacts/segments/contact-segments.ts','src/contacts/topics/contact-topics.ts','src/domains/domains.ts','src/domains/claims/domain-claims.ts','src/emails/emails.ts','src/emails/attachments/attachments.ts','src/emails/receiving/receiving.ts','src/emails/receiving/attachments/attachments.ts','src/events/events.ts','src/logs/logs.ts','src/oauth-grants/oauth-grants.ts','src/segments/segments.ts','src/suppressions/suppressions.ts','src/suppressions/batch/batch.ts','src/templates/templates.ts','src/topics/topics.ts','src/webhooks/webhooks.ts']
UT=['src/common/utils/parse-email-to-api-options.ts','src/common/utils/parse-template-to-api-options.ts','src/common/utils/parse-domain-to-api-options.ts','src/common/utils/parse-automation-to-api-options.ts','src/common/utils/parse-contact-properties-to-api-options.ts']
PG=['src/common/utils/build-pagination-query.ts','src/common/utils/get-pagination-query-properties.ts']
WIRE='the HTTP request handed to the platform fetch'
RES='the value the returned promise settles with'

p('C01','Every operation addresses its documented endpoint',
 "Every SDK operation sends its API request with the HTTP method and the path of that operation's endpoint, with each identifier the caller gave in its own documented place in the path. This holds for every accepted form of the arguments: where several forms exist (identifier as a string or an object, contact by id or by email, deprecated audience or current resource) the form decides the endpoint as documented, and an email address wins over an id.",
 ['inputs'],'all operations x all argument forms x all combinations of optional fields x all (URL-safe) identifier values',
 'The tests call each operation with one or two fixed argument sets and mostly do not look at the path; combinations of forms and optional fields are not enumerated.',
 ALL,[('one method per endpoint interpolating identifiers into a path','src/*/*.ts'),('verb helpers post/get/put/patch/delete',R)],[WIRE])
p('C02','JSON request bodies carry exactly what the caller gave',
 "The JSON body of every operation contains, under its documented API name, every body field the caller set, with its value unchanged - including false, 0, the empty string, null and empty lists - and contains no field the caller did not set. Elements of lists keep their number and order, and free-form data (event payloads, contact properties, template variables, email headers, filter rules, schemas) arrives verbatim at every depth, whatever its keys look like.",
 ['inputs'],'all operations with a JSON body x all subsets of their fields x all values, nested structures and lists',
 'Tests snapshot a handful of fully populated or minimal payloads per operation; a field lost only for a falsy value, for the second list element, for one step type or in combination with another field is never sampled.',
 ALL+UT,[('camelCase to snake_case translations',', '.join(UT)),('inline body literals','src/broadcasts/broadcasts.ts, src/contacts/contacts.ts, src/domains/domains.ts')],[WIRE])
p('C03','Query strings carry exactly the options the caller gave',
 "For every list or query operation the query string of the request, decoded, contains exactly the options the caller set (page size, after or before cursor, filters), each under its documented name, once, with its value unchanged, and list-valued options as one comma-separated value. Options that were not set do not appear, and setting one option never drops or changes another.",
 ['inputs'],'all list/query operations x all subsets of their options x all values, including ones that need URL escaping',
 'Tests cover single options and one or two combinations with plain alphanumeric values.',
 PG+['src/emails/emails.ts','src/broadcasts/broadcasts.ts','src/automations/automations.ts','src/automation-runs/automation-runs.ts','src/contacts/imports/contact-imports.ts','src/suppressions/suppressions.ts','src/emails/receiving/receiving.ts'],
 [('URLSearchParams builders',', '.join(PG)),('per-operation query builders','src/emails/emails.ts buildMetricsQuery; src/broadcasts/broadcasts.ts buildRecipientsQuery; src/suppressions/suppressions.ts')],[WIRE])
p('C04','An identifier can only name one resource, never change the request',
 "Whatever characters an identifier contains (slashes, question marks, hashes, percent signs, spaces, non-ASCII text), it occupies exactly one path segment of the request, which decodes to exactly that identifier. It can neither reach another endpoint nor add or change query parameters.",
 ['inputs'],'all operations taking an identifier x all non-empty identifier strings other than "." and ".."',
 'Only the event operations and the suppressions are tested with a character that needs escaping, one sample each.',
 ALL,[('encodeURIComponent on identifiers','src/events/events.ts, src/suppressions/suppressions.ts')],[WIRE])
p('C05','One call makes exactly its documented requests, once',
 "A call makes exactly the requests its operation documents - one for a plain operation, none for a locally refused one, up to three in order for forwarding a received email, up to two for a chained template publish - whatever the outcome of those requests. A failed, slow or unreadable response never leads to a second attempt, a request is never sent before the step it depends on has succeeded, and nothing is sent after the call has settled.",
 ['inputs','fault_sequences','schedules'],'all operations x all response outcomes (success, API error, unreadable body, network failure, at every request of the call) x all orders of completion, with timers run to exhaustion',
 'Tests stub fetch once per call and rarely count requests, never with failures at each position or after the call has settled.',
 [R]+ALL,[('single fetch per verb helper',R),('sequential await of dependent steps','src/emails/receiving/receiving.ts, src/templates/chainable-template-result.ts')],[WIRE])
p('C06','Every API outcome becomes one result: data or error, never an exception',
 "Every call that reached the network resolves to exactly one result of data, error and headers: for a successful readable response, the parsed body as data, no error, and all response headers; for an error response with a JSON object, that object unchanged as the error, no data, and the headers; for an error response without one, an application_error carrying the HTTP status and the headers. When the network fails or a successful response cannot be read, the result is an application_error with no data; no network or server behaviour makes the promise reject or stay pending.",
 ['inputs','fault_sequences'],'all operations x all status codes x all response bodies (JSON object, other JSON, non-JSON, empty, truncated) x all header sets x network failures of any thrown kind, at every request of the call',
 'Tests use a few statuses on a few operations; the mapping is one shared routine plus per-operation post-processing, so the operation x outcome product is not covered.',
 [R,'src/contact-properties/contact-properties.ts','src/emails/receiving/receiving.ts','src/templates/chainable-template-result.ts'],
 [('status/body classification and header copy',R+' fetchRequest')],[RES])
p('C07','Calls are independent of each other, across interleavings and clients',
 "What a call sends and returns depends only on its own arguments, its own client's configuration and the responses to its own requests. Calls made before it, or in flight at the same time in any interleaving of rendering, sending and responding, on the same client or on other clients, never change its request, its headers, its credentials or its result.",
 ['schedules','histories'],'all interleavings of up to three concurrent calls (any operations, one or two clients) and all call histories',
 'Every test makes one call at a time on a fresh client, so shared mutable state is invisible.',
 [R,'src/batch/batch.ts','src/emails/emails.ts','src/templates/templates.ts','src/broadcasts/broadcasts.ts','src/common/utils/build-pagination-query.ts'],
 [('fresh Headers copy per request',R),('no module-level mutable state','src/**')],[WIRE,RES],[('headers','base headers of a client, must never change after construction',R)])
p('C08','Request headers: authentication, defaults and caller overrides',
 "Every API request carries the client's key as bearer authorization, the client's user agent and - when it has a JSON body - a JSON content type. Headers the caller passes for a request are all sent with their values, in whichever standard form they are given (object, list of pairs, Headers) and however their names are capitalised, override the defaults they name, and affect that request only.",
 ['inputs','histories'],'all operations and raw verbs accepting request options x all header forms x all header names and values x sequences of requests',
 'Tests pass one custom header in one form to a few operations.',
 [R,'src/batch/batch.ts'],[('header overlay',R+' post/get/put/patch/delete')],[WIRE])
p('C09','The idempotency key reaches the API exactly when given',
 "When the caller gives an idempotency key for a request, that request carries it unchanged as the Idempotency-Key header, whatever other options, headers or payload accompany it, and it takes precedence over a header of that name. When none is given, no such header is sent (unless the caller sets it as a custom header), and a key never reappears on another request, including the other requests of a multi-step call.",
 ['inputs','histories'],'all operations accepting request options x key present/absent/empty x other options x call histories',
 'Three operations are tested with one fixed key each.',
 [R,'src/batch/batch.ts','src/emails/emails.ts','src/emails/receiving/receiving.ts'],[('header set after the overlay',R+' post')],[WIRE])
p('C10','Client configuration: explicit options, then environment, then defaults',
 "A client's API key, base URL and user agent are the explicit constructor values if given, else the values of RESEND_API_KEY, RESEND_BASE_URL and RESEND_USER_AGENT at construction, else (for URL and user agent) the built-in defaults, each resolved independently; without any key, construction throws. They are fixed at construction: later changes of the environment or of other clients do not affect the client's requests, and where no process environment exists explicit values and defaults still work.",
 ['configurations','histories'],'all combinations of explicit / environment (set, empty, unset, absent process) / default for the three settings x later environment changes x several clients',
 'Tests try single settings; combinations, later environment changes and several clients are not covered.',
 [R],[('constructor resolution',R+' constructor, getDefaultBaseUrl, getDefaultUserAgent')],[WIRE,'public baseUrl and userAgent of the client'])
p('C11','The API key only goes to the API, and only as its credential',
 "The API key appears only in the Authorization header of requests to the client's own base URL. Requests to any other place (such as the download of raw email content) carry neither it nor the caller's request headers, and the key never appears in a URL, in a request body, in a log line or in a returned error.",
 ['inputs','histories','fault_sequences'],'all operations, outcomes (including failing and multi-step calls) and configurations',
 'No test inspects the raw-content download request or the log output for the key.',
 [R,'src/emails/receiving/receiving.ts'],[('plain fetch for the download','src/emails/receiving/receiving.ts'),('log record without headers',R+' logError')],[WIRE,'console output',RES])
p('C12','Calls lacking a required identifier are refused without any request',
 "Where the SDK documents a local check (contacts and their segments and topics without id and email, contact properties, topics and suppressions without id, deprecated audience combined with segments or topics, forwarding an email without raw content), the call resolves to a result with that documented error name, no data and no headers, and does not send the request. Calls that do give what is required are never refused.",
 ['inputs'],'all locally checked operations x all missing / empty / present combinations of their identifiers and other fields',
 'Each refusal is tested with one argument set; combinations of empty and missing identifiers are not.',
 ['src/contacts/contacts.ts','src/contacts/segments/contact-segments.ts','src/contacts/topics/contact-topics.ts','src/contact-properties/contact-properties.ts','src/topics/topics.ts','src/suppressions/suppressions.ts','src/emails/receiving/receiving.ts'],
 [('guard clauses','see files')],[WIRE,RES])
p('C13','React content is rendered and sent as the HTML of its own message',
 "Wherever an operation accepts React content (emails, batches, broadcasts, templates), the request carries the rendering of exactly that content as the HTML of exactly that message, in place of any html given, and is sent only once all its renderings have completed; messages without React content keep their html. If a rendering fails, or the renderer is not installed, the call rejects with that failure and sends nothing.",
 ['inputs','schedules','fault_sequences'],'all operations accepting React x mixes of React and plain messages x completion orders and failures of renderings, with concurrent calls',
 'Tests render one component per operation, synchronously successful, without concurrency or failure.',
 ['src/render.ts','src/emails/emails.ts','src/batch/batch.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts'],[('render before post','see files')],['calls of the renderer',WIRE,RES])
p('C14','Arguments are never modified',
 "No call changes any object the caller passed in - payload, options, headers, lists or their elements - at any depth and at any time, whether it succeeds, is refused or fails. Frozen arguments therefore work like ordinary ones, and the same argument objects can be reused for further calls with the same effect.",
 ['inputs','histories'],'all operations x all argument shapes x all outcomes, arguments reused across calls',
 'Tests pass literals and never look at them again.',
 ['src/batch/batch.ts','src/emails/emails.ts','src/common/utils/parse-email-to-api-options.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts',R],[('copies before rendering','src/batch/batch.ts, src/emails/emails.ts, src/templates/templates.ts')],['the argument objects before and after'])
p('C15','Template chaining publishes what was created, and only then',
 "Awaiting a template creation or duplication gives exactly that request's result. Chaining publish on it sends the publish request for exactly the id the first request returned, once and only after that succeeded, and gives the publish result; if the first step failed, nothing is published and its error is the result.",
 ['schedules','fault_sequences','histories'],'create and duplicate x await / publish / both / several publishes x outcomes of both requests x concurrent chains',
 'Two happy-path tests; no failing first step, no concurrent chains, no await plus publish.',
 ['src/templates/chainable-template-result.ts','src/templates/templates.ts'],[('thenable wrapper around the first promise','src/templates/chainable-template-result.ts')],[WIRE,RES])
p('C16','Forwarding sends the received email faithfully, step by step',
 "Forwarding a received email reads it, downloads its raw content from the URL it names, and sends one email from and to the given addresses: in passthrough mode with the original subject, text, HTML and every attachment's content, name and type; in wrapped mode with the subject prefixed once by \"Fwd:\", the caller's text and HTML, and the raw message byte for byte as one attachment. If a step fails, the later steps do not happen and the call resolves to that step's error.",
 ['inputs','fault_sequences'],'all received emails (subjects, bodies, attachments, arbitrary bytes) x both modes x failures at every step',
 'Tests use a few short ASCII messages with everything succeeding, and one failing download.',
 ['src/emails/receiving/receiving.ts'],[('forwardPassthrough / forwardWrapped','src/emails/receiving/receiving.ts')],[WIRE,RES])
p('C17','Webhook verification accepts exactly the genuine, fresh messages',
 "Webhook verification returns the parsed payload if and only if the id, timestamp and signature are all present, the timestamp is within five minutes of now, and one of the given signatures is the valid v1 signature of exactly that id, timestamp and payload under the given secret; otherwise it throws. The result does not depend on the client, on its API key or on earlier verifications.",
 ['inputs','histories'],'all tampering of payload, id, timestamp, signature list and secret x clock offsets x histories of verifications',
 'A handful of fixed cases; no combinations of tampered parts, signature lists, clock boundaries or histories.',
 ['src/webhooks/webhooks.ts'],[('standardwebhooks with mapped headers','src/webhooks/webhooks.ts verify')],['return value or exception of verify'])
p('C18','Batch sending keeps every email, its order and the validation mode',
 "A batch request contains one entry per given email, in the given order, each exactly as if it had been sent alone, in one request however many there are, and names the validation mode: the caller's, or strict when none is given, unless the caller's own headers set it. The response's data and per-email errors are returned unchanged.",
 ['inputs','schedules'],'all batches (sizes, mixes of plain, React and template emails) x validation mode x header forms x rendering orders',
 'Tests send two fixed emails; position mix-ups, larger batches, mixed content and header forms are not covered.',
 ['src/batch/batch.ts','src/common/utils/parse-email-to-api-options.ts'],[('ordered mapping and x-batch-validation','src/batch/batch.ts')],[WIRE,RES])
p('C19','Contact imports upload the file and options unchanged as multipart data',
 "Creating a contact import sends one multipart request containing the file's bytes, type and name unchanged and, for each option the caller set, one field with the documented name and value (column map, segments and topics as JSON, conflict mode as text); options not set are absent. The multipart content type with its boundary is left to the platform, so the request is decodable, while authentication and caller headers apply as for any request.",
 ['inputs'],'all files (binary content, types) x all subsets and values of the options x header forms',
 'Tests use one small text file and two option sets.',
 ['src/contacts/imports/contact-imports.ts',R],[('FormData building','src/contacts/imports/contact-imports.ts'),('content-type removal',R+' post')],[WIRE])
p('C20','Contact properties read back with documented names and values',
 "Reading contact properties, one or a page of them, returns every property the API returned, in order, with id, key, type, creation time and fallback value (including 0, empty and null) unchanged under their documented names, and the page's other fields unchanged. Errors of these calls are passed on like those of any other call.",
 ['inputs'],'all responses (0..n properties, all types and fallback values) x get/list x outcomes',
 'Tests use one fixed response per operation.',
 ['src/contact-properties/contact-properties.ts','src/common/utils/parse-contact-properties-to-api-options.ts'],[('parseContactPropertyFromApi','src/common/utils/parse-contact-properties-to-api-options.ts')],[RES])
p('C21','Every API failure is logged once outside production, never in production',
 "Each API request that fails - error response, unreadable response or network failure - is reported once on the error console with the error returned to the caller, the request path and the HTTP status when the failure is an error response, unless NODE_ENV is production at that moment or no process environment exists, when nothing is logged. Successful requests and local refusals log nothing.",
 ['inputs','configurations','histories'],'all operations x outcomes x NODE_ENV values, changing between calls and while a call is in flight',
 'Tests check a few error cases on one operation with fixed NODE_ENV.',
 [R],[('logError',R)],['console output'])
p('C22','A request reflects its arguments as they were at the time of the call',
 "The request a call sends is determined by the fields of the payload, the batch list and the request options as they were when the operation was called. Changing, adding or removing such fields afterwards, while the call is still rendering or waiting, has no effect on what it sends.",
 ['schedules','histories'],'all operations, in particular those that render or make several requests x later changes of any top-level field of any argument, at any point before the call settles',
 'No test touches the arguments after the call.',
 ['src/emails/emails.ts','src/batch/batch.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts','src/emails/receiving/receiving.ts'],[('shallow copies before the first await','see files')],[WIRE])
p('C23','Following cursors visits every item once',
 "For every paginated list operation, starting without a cursor and repeatedly passing the last item's id as the after cursor (or the first item's id as before, going back) while the result says there are more, with any page size and filters, visits every item of the collection exactly once and in order, and then stops.",
 ['histories','inputs'],'all paginated operations x collection sizes x page sizes x cursor values x filters, against a server paginating as documented',
 'Tests only compare query strings of single calls with fixed cursors.',
 PG+ALL,[('cursor query building and verbatim results',', '.join(PG))],['the sequence of results of a walk'])
p('C24','Histories of calls behave like the resource store they address',
 "Against a server that stores resources as documented, any history of create, get, list, update and remove calls on any resource family behaves as on that store: a created resource reads back with the given fields, an update changes exactly the given fields of exactly that resource, a removed one is gone, and all others are unaffected.",
 ['histories'],'histories of create/get/list/update/remove over several resources and resource families, several clients',
 'Tests never make two dependent calls against a stateful server.',
 ALL+UT,[('request/response mapping of all resource classes','src/*/*.ts')],['results of the calls'],[('store','resources by family and id, held by the modelled server','spec/Store.tla')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
