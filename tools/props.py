import json
P=[]
def p(id,title,statement,over,qtext,why,files,symbols=None,notes=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,**({'symbols':symbols} if symbols else {}))))
R='src/resend.ts'
p('C01','One call makes exactly one request, to the documented verb and path',
 "Every SDK operation that talks to the API issues exactly one HTTP request per call, with the documented verb, to the client's base URL followed by the documented path with the caller's identifiers in their documented positions. Aliases (send/create, audiences/segments, deprecated forms) reach the same endpoint as what they alias, and operations documented without a payload carry no body.",
 ['inputs','programs'],'every operation of the public client × identifier values × presence of optional arguments × base URLs',
 'Tests call each operation a few times with one identifier and one host, and mostly assert the URL only through a mocked fetch; no test covers all identifier positions or proves there is no second request.',
 [R,'src/emails/emails.ts','src/contacts/contacts.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts'])
p('C02','Every supplied option reaches the request body under its wire name, unchanged',
 "For every operation with a JSON body, the body is exactly the supplied options under their documented (snake_case) names with their values unchanged; null, false, 0, '' and empty lists or maps are sent, not dropped. List order and duplicates are preserved and keys inside user data (headers, variables, properties, schema, event payload) are never renamed.",
 ['inputs'],'every operation with a body × every subset of its fields × adversarial values per field, singly and in pairs',
 'Tests use one or two typical payloads per operation; falsy values, field combinations and user data that looks like SDK field names are not covered.',
 ['src/common/utils/parse-email-to-api-options.ts','src/common/utils/parse-template-to-api-options.ts','src/common/utils/parse-domain-to-api-options.ts','src/contacts/contacts.ts','src/broadcasts/broadcasts.ts'])
p('C03','An option given as undefined means the same as an option left out',
 "For every operation, passing any subset of optional fields, optional arguments or request options explicitly as undefined produces the same requests and the same result as leaving them out.",
 ['inputs'],'every operation × every subset of its optional fields set to undefined × the presence of the others',
 'Callers routinely forward undefined values; tests almost never pass an explicit undefined, so presence tests written with `in` versus value tests are not distinguished.',
 ['src/contacts/contacts.ts','src/common/utils/build-pagination-query.ts','src/contact-properties/contact-properties.ts',R])
p('C04','Pagination cursors and filters arrive exactly as supplied',
 "Every supplied limit, cursor or filter of a listing or metrics operation arrives as exactly one query parameter of the documented name that decodes to exactly the supplied value (list filters comma-joined in order), whatever characters it contains, and nothing else is in the query. Limits and cursors of 0 or '' are sent too, except by the template listing, which treats them as absent.",
 ['inputs'],'every listing/metrics operation × every subset of its filters × adversarial cursor and filter values, in pairs',
 'Tests use alphanumeric cursors and one or two filters at a time; reserved characters, combinations and boundary limits are not covered.',
 ['src/common/utils/build-pagination-query.ts','src/common/utils/get-pagination-query-properties.ts','src/emails/emails.ts','src/broadcasts/broadcasts.ts','src/automation-runs/automation-runs.ts','src/suppressions/suppressions.ts'])
p('C05','An identifier stays within its own path segment',
 "Whatever characters an identifier contains (short of being a bare '.' or '..', which no URL path can carry), it occupies exactly the one path segment it is documented for and decodes back to the supplied text: it never adds, removes or changes other segments, and never introduces a query or fragment.",
 ['inputs'],'every operation with an identifier × every identifier position × identifiers containing reserved, encoded, dot, space and non-ASCII characters',
 'Tests use UUIDs and plain e-mail addresses.',
 ['src/events/events.ts','src/suppressions/suppressions.ts','src/emails/emails.ts','src/contacts/contacts.ts'])
p('C06','The result always tells success from failure and carries what the API said',
 "A 2xx JSON answer yields exactly {data: the answer, error: null}; any other status yields {data: null, error} where error is the API's JSON object verbatim, or, when the body is not a JSON object, an application_error carrying the HTTP status; headers are all response headers by lower-case name. error is never null or falsy for a failed request, and data is always null when there is an error.",
 ['inputs','fault_sequences'],'every operation × every HTTP status 200–599 × every kind of body (objects, arrays, primitives, null, empty, HTML, truncated JSON) × header sets',
 'Tests exercise one or two statuses with well-formed error objects; bodies that are valid JSON but not objects, and most statuses, are untested.',
 [R,'src/interfaces.ts','src/contact-properties/contact-properties.ts'])
p('C07','No network or server fault escapes as an exception or a hang',
 "When a connection fails with any thrown value, a body fails or is cut short, an answer cannot be parsed or has an error status, at the first or a later request of an operation, the call settles by resolving with data null and an error object naming the failure. It never rejects, throws, hangs, or leaves an unhandled rejection behind.",
 ['fault_sequences','schedules'],'every operation × every request/body step it performs × every fault kind at that step, for single- and multi-request operations',
 'Tests inject a connection error into one or two operations; body failures, non-Error throw values and faults in later steps of multi-request operations are not covered.',
 [R,'src/emails/receiving/receiving.ts','src/templates/chainable-template-result.ts'])
p('C08','Every API request carries the client identity, and per-request headers win',
 "Every request to the API carries the client's Bearer key, user agent and, unless it uploads a file, a JSON content type; headers given for a call in any accepted form (record, Headers object or list of pairs, any letter case) are all added and replace same-named defaults for that call only. Every operation that accepts request options, and the raw get/post/put/patch/delete methods, honours them.",
 ['inputs','configurations'],'every operation × every form and case of caller headers × overlaps with the default headers',
 'Tests look at a few headers on a few operations and almost always pass a plain record with fresh names.',
 [R,'src/batch/batch.ts','src/emails/receiving/receiving.ts'])
p('C09','The idempotency key is sent exactly when given, on exactly the write it names',
 "When a call is given a non-empty idempotency key, the POST that performs the write carries it unchanged as Idempotency-Key, over any header of that name, and no other request of that or any other call carries it. Without one, no SDK request carries that header unless the caller set it.",
 ['inputs','histories'],'every operation taking request options × key values × header overlap × preceding and following calls on the client',
 'Tests check one key value on single calls; leakage to other requests (forwarding, later calls) and interplay with headers are untested.',
 [R,'src/batch/batch.ts','src/emails/receiving/receiving.ts'])
p('C10','A write is sent to the API at most once per call, whatever goes wrong',
 "No operation ever sends the same request twice on behalf of one call: after an error status, a network failure, a broken or delayed answer, or any amount of elapsed time, a call has issued each request of its documented sequence at most once. Retrying is left to the caller.",
 ['fault_sequences','schedules'],'every operation × every fault at every step (statuses 408/409/425/429/5xx with and without Retry-After, connection and body failures) × time advanced past any timer',
 'Tests stop at the first resolved value and never advance time, so hidden retries under particular statuses are invisible.',
 [R])
p('C11','Calls do not depend on what was called before',
 "On any client, the request made and the result returned by a call depend only on that call's arguments and answer: after any history of earlier calls, succeeded or failed, on this or another client, it is the same as on a fresh client. Clients with different keys or base URLs never mix settings.",
 ['histories'],'all ordered pairs of operations × outcome of the first (success, API error, network failure) × same/other client; longer sequences over a representative set',
 'Tests build a fresh client per case and rarely make two calls on it.',
 [R,'src/templates/templates.ts','src/webhooks/webhooks.ts'])
p('C12','Concurrent calls never mix up their requests or results',
 "When several calls are in flight at once, on one client or several, each sends exactly the request it would send alone and settles with exactly the answer to its own request, in whatever order requests start, renderings finish, answers arrive and bodies complete, including when some of them fail.",
 ['schedules'],'all interleavings of start, render, answer and body events for sets of 2–4 concurrent calls drawn from all operation kinds, with failures',
 'Tests await one call at a time; no test has two in flight, so no interleaving is ever exercised.',
 [R,'src/batch/batch.ts','src/emails/receiving/receiving.ts','src/render.ts'])
p('C13','Arguments are never modified and may be immutable',
 "No operation changes, at any depth, the payload, options or request options it was given; the same objects can be passed again with the same effect, and deeply frozen arguments give the same request and result as unfrozen ones.",
 ['inputs','histories'],'every operation × full and partial arguments × frozen/unfrozen × reuse of the same argument objects × success and failure',
 'Only two operations have a single non-mutation test each.',
 ['src/batch/batch.ts','src/emails/emails.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts'])
p('C14','Forwarding a received email is one ordered, fail-stop workflow',
 "Forwarding fetches the stored email, then downloads its raw message, then sends exactly one email; each step starts only after the previous one succeeded, any failure ends it with an error and no send, and the final result is the send's own. The subject is the original or '(no subject)' when passing through, and gains one 'Fwd:' prefix, unless it already starts with it, when wrapping.",
 ['schedules','fault_sequences','inputs'],'both modes × all answers and faults at each of the three steps × subjects × option combinations',
 'Tests cover the happy path and a few single failures; which requests were (not) made after each failure is not checked across the fault space.',
 ['src/emails/receiving/receiving.ts'])
p('C15','Forwarding delivers the original content intact',
 "A wrapped forward attaches one message/rfc822 file whose decoded bytes equal the downloaded bytes exactly, alongside the caller's text and html; a passed-through forward sends the original's text, html and all attachments with their names, types, content ids and exact bytes, in order. This holds for any charset, transfer encoding, binary content and multipart nesting, except that line endings of calendar parts and of content sent without a transfer encoding may be normalised.",
 ['inputs'],'raw messages over a MIME grammar (charset × transfer encoding × multipart nesting × attachment kinds) and arbitrary byte strings, both modes',
 'Tests use small ASCII messages.',
 ['src/emails/receiving/receiving.ts'])
p('C16','Chaining publish after template create/duplicate publishes exactly that template',
 "Publishing chained onto a template create or duplicate sends one publish for the id the server returned, and only after that call succeeded; if it failed, nothing is published and its error is returned. Awaiting the create or duplicate alone never publishes, and it is sent once however often the result is awaited or published.",
 ['schedules','fault_sequences','programs'],'create/duplicate × usage programs (await, then, publish, combinations, repeats) × all answers and faults × all interleavings',
 'Tests cover create().publish() success and one failure, sequentially.',
 ['src/templates/templates.ts','src/templates/chainable-template-result.ts'])
p('C17','React content is rendered before sending, or nothing is sent',
 "When a payload has a React element, the request is sent only after rendering, with html being the rendered markup of that element (taking the place of any html given) and no other field affected; the element itself is never sent. If rendering fails or the renderer is not installed, the call rejects and no request is made.",
 ['schedules','fault_sequences','inputs'],'every operation accepting React × payload shapes × render outcomes and timings (including each position of a batch)',
 'Tests mock the renderer to succeed at once; failures, late rendering and mixed batches are not covered.',
 ['src/render.ts','src/emails/emails.ts','src/batch/batch.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts'])
p('C18','A batch carries its emails one-to-one, in order, with the chosen validation mode',
 "The batch request body has exactly one entry per supplied email, in order, each equal to what sending that email alone would put on the wire, whatever mix of plain and React emails and however long each takes to render. The validation mode header is the one chosen, strict when none was, and all other request options survive beside it.",
 ['inputs','schedules'],'batches up to a bound × email shapes × render orders and failures × validation modes × header forms',
 'Tests send batches of one or two uniform emails with renders that finish immediately.',
 ['src/batch/batch.ts'])
p('C19','Webhook verification accepts exactly the authentic, fresh messages',
 "Verification returns the parsed payload exactly when the signature list contains a valid v1 signature over that id, timestamp and payload under the secret given in this call and the timestamp is within five minutes of now; in all other cases it throws. The verdict does not depend on earlier verifications or on the client.",
 ['inputs','histories'],'all single mutations of an authentic message (every field, every byte/bit), signature lists, secret forms, timestamps around both window edges, and sequences of verifications with different secrets',
 'Tests check a handful of valid and invalid messages, one secret, one clock position.',
 ['src/webhooks/webhooks.ts'])
p('C20','The API key reaches only the API',
 "The API key is sent only in the Authorization header of requests to the configured base URL: never to the raw-message download host, nor in any URL, body, other header, result or console output, whatever the outcome.",
 ['inputs','fault_sequences'],'every operation × answers and faults × log settings, and forwarding with adversarial download URLs',
 'Tests do not look for the key in places it should not be.',
 [R,'src/emails/receiving/receiving.ts'])
p('C21','Client settings come from arguments first, then environment, then defaults',
 "The key, base URL and user agent are those passed to the constructor, else the environment's, else (base URL, user agent) the documented defaults, fixed at construction; construction without any key throws and never sends. This also holds where there is no process object or environment.",
 ['configurations'],'constructor argument × environment × runtime combinations for the three settings, and later environment changes',
 'Tests cover isolated combinations in Node only.',
 [R])
p('C22','A missing required identifier is refused locally',
 "Operations that validate their identifier (contacts, their topics and segments, contact properties, topics, suppressions) answer a missing or empty one with {data: null, error: missing_required_field, headers: null} and send nothing; a legacy contact creation combined with segments or topics is refused the same way with invalid_parameter. With an identifier present they always send.",
 ['inputs'],'each validating operation × every combination of absent/undefined/null/empty/present identifiers with the other options',
 'Tests check one missing case for some of these operations.',
 ['src/contacts/contacts.ts','src/contacts/topics/contact-topics.ts','src/contacts/segments/contact-segments.ts','src/contact-properties/contact-properties.ts','src/topics/topics.ts','src/suppressions/suppressions.ts'])
p('C23','Contact operations address the contact and audience the caller named',
 "Contact operations address the contact by e-mail when one is given and otherwise by id, inside the audience when an audience id is given and globally otherwise; creation uses the audience endpoint only with an audience id; listing uses the segment id, else the audience id, else lists all contacts. The addressing never leaks into the body or query.",
 ['inputs'],'each contact operation × every combination of absent/undefined/null/empty/present for id, email, audience and segment × other options',
 'Tests cover a few combinations per operation; precedence when several identifiers are present is largely untested.',
 ['src/contacts/contacts.ts','src/contacts/segments/contact-segments.ts','src/contacts/topics/contact-topics.ts'])
p('C24','Contact properties read back with their values intact',
 "Reading or listing contact properties returns each property under the documented camelCase names with id, key, type, creation time and fallback value (including null, 0 and '') unchanged, in the order and number the API sent, with the list's paging fields; API errors and response headers pass through unchanged.",
 ['inputs'],'lists of 0–n properties × adversarial field values × paging flags × error answers',
 'Tests use one or two ordinary properties.',
 ['src/contact-properties/contact-properties.ts','src/common/utils/parse-contact-properties-to-api-options.ts'])
p('C25','A contact import uploads the file and exactly the supplied settings',
 "A contact import is one multipart request without a JSON content type whose file part has the supplied bytes, type and name, and which has exactly one part per supplied setting (column_map, on_conflict, segments, topics) whose JSON is the supplied value under wire names; empty lists and empty strings inside are kept and user-chosen property keys are not renamed.",
 ['inputs'],'file contents and names × every subset of settings × adversarial setting values × caller headers',
 'Tests inspect a few form fields of one or two imports.',
 ['src/contacts/imports/contact-imports.ts',R])
p('C26','Automation graphs are sent step for step and edge for edge',
 "Creating or updating an automation sends its steps and connections in order and one-to-one, each step with its key, type and every configuration value it was given under wire names, each connection with its endpoints and type; user-chosen content (template variables, rules, properties) is unchanged. An update sends exactly the supplied parts, including empty lists.",
 ['inputs'],'step lists up to length 3 over all step types × every subset of configuration fields × adversarial values × connection lists × update subsets',
 'Tests convert one big automation and a couple of small ones.',
 ['src/common/utils/parse-automation-to-api-options.ts','src/automations/automations.ts'])
p('C27','Failures are reported on the console outside production and never in production',
 "With NODE_ENV=production the SDK writes nothing to the console for any outcome; otherwise a failed API request is reported with console.error, with its path (query string included), error and HTTP status when there is one, and a successful one writes nothing. Reporting never changes the result, and the setting is read when the failure happens.",
 ['configurations','fault_sequences'],'every operation × outcomes and faults × NODE_ENV values including unset and changed between construction and call',
 'One spec covers the switch for a single operation and a few outcomes.',
 [R])
p('C28','A call sends its arguments as they were when the call was made',
 "Replacing, adding or removing fields of the payload or options objects (for a batch, of the list and its e-mails too) after a call has been made, while it is still rendering or waiting for earlier steps, does not change what it sends or returns.",
 ['schedules','inputs'],'every operation × every top-level field mutated at every scheduling point after the call',
 'Tests never touch the payload after the call.',
 ['src/emails/emails.ts','src/batch/batch.ts','src/broadcasts/broadcasts.ts','src/templates/templates.ts','src/emails/receiving/receiving.ts'])
p('C29','A call leaves the process as it found it',
 "Loading the library, creating a client and making calls, whatever their outcome, leave nothing behind in the process: no global variable, built-in class or prototype, environment variable or process listener is added or changed, and no timer or open handle remains once a call has settled, however hostile the server's answer or the arguments and however many calls are made.",
 ['histories','schedules'],'every flow × step × outcome × environment, hostile answers and arguments, runs of calls, and every interleaving of pairs of flows, looked at in every state',
 'Tests look at results, never at the process around them, and a leak shows only after a particular outcome or many calls.',
 [R,'src/emails/receiving/receiving.ts','src/render.ts'])
p('C30','Requests and reports use the fetch and console of the moment',
 "Every request of a call goes through the global fetch in force when the request is issued, called as a plain function, and every report through the console.error in force when it is made, whenever they were installed or replaced (before or after the library was loaded, after the client was created, in the middle of a call); and the result is the same for any standard-conforming implementation of fetch, even one with its own Response and Headers classes.",
 ['schedules','configurations'],'every flow × outcome × replacement at every moment (load, construction, microtasks, between requests) alone and in pairs, every interleaving with replacements, foreign implementations of fetch',
 'Tests install one mock before loading and never replace it during the life of a client or call.',
 [R,'src/emails/receiving/receiving.ts'])
p('C31','The low-level verbs deliver exactly what they are given',
 "client.get, post, put, patch and delete issue one request with that verb to the base URL followed by the path as given (query string and percent-encoding included), with the JSON text of the entity as the body (null, false, empty text and empty objects too; no body for an undefined entity or a get; a FormData entity of a post as multipart with its own content type), the client's headers and the given ones, and nothing of the options in the body; an entity JSON cannot carry is never sent; and the data of the result is the JSON document that came back, for documents and entities of every kind and size.",
 ['inputs','histories'],'verb x path x entity x options, every size, outcomes, every ordered pair of calls',
 'Tests reach the verbs only through the resources, with small plain objects.',
 [R])
p('C32','Requests and results depend on configuration, arguments and answers only',
 "The same call on an equally configured client sends byte-identical requests (so that a retry under one idempotency key is the same request) and gives the same result, whatever the clock, random numbers, time zone, locale, undocumented environment variables, NODE_ENV, details of the process, or kind of runtime (browser, worker, edge, Deno or Bun globals present, Node-only globals absent), and however often it was made before.",
 ['configurations','histories'],'every flow x outcome x surroundings singly and in pairs; every operation x unusual values x surroundings; repeated calls',
 'Tests run in one place, at one time, in one runtime.',
 [R,'src/emails/receiving/receiving.ts'])
p('C33','Equivalent spellings of a call are equivalent',
 "How the argument objects and lists were made - literals, null-prototype objects, class instances, accessors, frozen or proxied objects, objects of another realm, subclasses of Array, other key order, hidden members - makes no difference to what is sent and returned, as long as their own enumerable members are the same; nor does the spelling of the answer (white space, escapes, key order, content type, which 2xx status); and aliases (emails.create and send, batch.create and send, audiences and segments, a contact as text or as an object) are interchangeable.",
 ['inputs'],'every operation x arguments x representation x outcome; answers in every spelling; every alias',
 'Tests pass literals and get compact JSON back.',
 ['src/*',R])
p('C34','No answer is left behind unread',
 "Once a call has settled, every response it received, the raw-message download included, has had its body read to the end or cancelled, whatever its status, its content, the way it arrived, the other steps' outcomes and the calls running at the same time, so that no finished call keeps a connection (or the server's data) occupied.",
 ['inputs','faults','schedules'],'every flow x step x status x body x way of arriving; pairs of steps; sizes; pairs of calls in every interleaving',
 'Tests look at results, never at what became of the response.',
 [R,'src/emails/receiving/receiving.ts'])
p('C35','An answer counts by its status and body',
 "What else an answer carries - any header field with any value (content type, Retry-After, rate-limit, cookies, validators, links, locations, dates, deprecation, request ids and so on), the reason phrase, redirection, URL and type - is handed over in the result's headers or ignored: it changes neither data nor error, nor what is requested in this or any later call, nor when, nor what is logged.",
 ['inputs','faults'],'every flow x step x answer x header field and value, pairs of them, true lengths of every size; followed by further calls on the same client',
 'Tests answer with one or two header fields and never look at later calls.',
 [R,'src/emails/receiving/receiving.ts'])
M={
'C01':[('one template-literal path and one Resend.get/post/patch/delete call per resource method','src/*/*.ts'),('Resend.fetchRequest joins base URL and path','src/resend.ts')],
'C02':[('explicit camelCase to snake_case body literals and parse*ToApiOptions helpers','src/common/utils, resource classes'),('JSON.stringify of the entity in Resend.post/patch','src/resend.ts')],
'C03':[('JSON.stringify drops undefined members; !== undefined tests in query builders; presence tests in contacts.create','src/common/utils, src/contacts/contacts.ts')],
'C04':[('buildPaginationQuery, getPaginationQueryProperties, URLSearchParams in metrics/recipients/runs/suppressions','src/common/utils, resource classes')],
'C05':[('encodeURIComponent in events and suppressions; plain interpolation elsewhere (known finding)','src/events/events.ts, src/suppressions/suppressions.ts')],
'C06':[('Resend.fetchRequest result construction; contact property mapping','src/resend.ts, src/contact-properties/contact-properties.ts')],
'C07':[('try/catch in Resend.fetchRequest; error returns in forward and the publish chain','src/resend.ts, src/emails/receiving/receiving.ts')],
'C08':[('per-call copy of the client Headers, then set() of caller headers, in get/post/put/patch/delete','src/resend.ts'),('batch option merge','src/batch/batch.ts')],
'C09':[('Idempotency-Key set in Resend.post after caller headers','src/resend.ts')],
'C10':[('single fetch per fetchRequest, no retry loop','src/resend.ts')],
'C11':[('no mutable module or client state; headers copied per call','src/resend.ts')],
'C12':[('per-call locals only; headers copied per call','src/resend.ts, src/batch/batch.ts')],
'C13':[('payload copies before rendering and conversion','src/emails/emails.ts, src/batch/batch.ts')],
'C14':[('Receiving.forward and its two modes','src/emails/receiving/receiving.ts')],
'C15':[('raw download, PostalMime.parse, base64 attachments','src/emails/receiving/receiving.ts')],
'C16':[('ChainableTemplateResult','src/templates/chainable-template-result.ts')],
'C17':[('render() before post in emails, batch, broadcasts, templates','src/render.ts and callers')],
'C18':[('Batch.create loop and validation header','src/batch/batch.ts')],
'C19':[('Webhooks.verify over standardwebhooks, one verifier per call','src/webhooks/webhooks.ts')],
'C20':[('Authorization only in the client Headers used by fetchRequest; bare fetch for the raw download','src/resend.ts, src/emails/receiving/receiving.ts')],
'C21':[('Resend constructor, getDefaultBaseUrl, getDefaultUserAgent','src/resend.ts')],
'C22':[('missing_required_field guards','src/contacts, src/topics, src/contact-properties, src/suppressions')],
'C23':[('audienceId / email-over-id selection in contact operations','src/contacts/contacts.ts')],
'C24':[('parseContactPropertyFromApi','src/common/utils/parse-contact-properties-to-api-options.ts')],
'C25':[('buildCreateFormData; Content-Type removal for FormData','src/contacts/imports/contact-imports.ts, src/resend.ts')],
'C26':[('parseStepConfig, parseConnection','src/common/utils/parse-automation-to-api-options.ts')],
'C27':[('Resend.logError','src/resend.ts')],
'C31':[('get/post/put/patch/delete and fetchRequest','src/resend.ts')],
'C32':[('no clock, randomness, locale or environment access besides configuration and NODE_ENV; guarded process and FormData','src/resend.ts')],
'C35':[('response.ok decides; Object.fromEntries(response.headers.entries()) is all that is made of the header fields','src/resend.ts')],
'C34':[('response.text / response.json / arrayBuffer; cancellation of a failed download','src/resend.ts, src/emails/receiving/receiving.ts')],
'C33':[('destructuring and spreads of plain members; Array.isArray','src/common/utils, resource classes')],
'C29':[('no module state, listeners or timers; plain fetch','src/resend.ts')],
'C30':[('bare fetch(...) and console.error(...) looked up at each use','src/resend.ts, src/emails/receiving/receiving.ts')],
'C28':[('payload copied or converted before the first await','src/emails/emails.ts, src/batch/batch.ts, src/broadcasts/broadcasts.ts')],
}
for x in P:
    x['anchors']['mechanism']=[dict(name=n,where=w) for n,w in M[x['id']]]
    x['anchors']['observe_at']=['globalThis.fetch calls','the settled result']+(['console'] if x['id'] in('C20','C27','C30') else [])
    x['anchors']['hook_needed']=None
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
