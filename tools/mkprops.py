#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single place where the property texts live).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

TS='core/src/text_serializer.cc'
p('C01','Text exposition carries exactly the collected data',
 'Parsing the text produced for any list of metric families, by the rules of the Prometheus text exposition format, gives back exactly those families: type, help text, one sample per series the type defines, every label name and value byte for byte, every value (to the 16 significant digits written), and every non-zero timestamp. No label value or help text, whatever bytes it contains, can add, drop, split or alter a sample or a comment line. A histogram always ends in a +Inf bucket equal to its count, and an Info family is exposed as <name>_info with value 1.',
 ['inputs'],'all family types, all label values and help texts (any bytes, bounded length), values including NaN and infinities, timestamps, several families and metrics in one document',
 'tests search for a substring after serialising a handful of fixed strings; escaping must be right for every byte sequence and in every position, including help text, adjacent escapes and empty strings',
 [TS,'core/src/serializer.cc','core/include/prometheus/client_metric.h'],[('WriteValue escaping',TS),('WriteHead/WriteTail',TS),('SerializeFamily',TS)],observe=['TextSerializer::Serialize output'])
p('C02','Serialisation ignores and preserves the stream\'s formatting state',
 'The text written does not depend on the locale, precision, number base, sign, case, fill or float-format settings that the caller\'s output stream happens to carry. After serialising, all those settings of the stream are as they were before.',
 ['inputs','configurations'],'all combinations of stream flags, precision, fill and locale, for every metric type',
 'one test checks restoration on a default-state stream and one checks a comma locale; no test serialises into a stream whose flags are not the default',
 [TS],[('save/restore of stream state','TextSerializer::Serialize in '+TS)],observe=['std::ostream passed to Serialize'])
H='core/src/histogram.cc'
p('C03','Every observation is counted in exactly the right histogram buckets',
 'After any sequence of single observations, the cumulative count reported for each upper bound equals the number of observed values less than or equal to that bound, the bounds are the configured ones followed by +Inf, and the total count equals the number of observations and the +Inf bucket. The reported sum is the floating-point sum of the observed values. Collecting changes nothing.',
 ['inputs','histories'],'all strictly increasing finite bound lists up to the length bound, all sequences of non-NaN doubles (infinities, denormals, signed zeros and values equal to a bound included)',
 'tests use bounds {1,2} and seven fixed values; equality at a bound, infinities, empty bound lists and the interaction of several bounds are sampled at a few points at most',
 [H,'core/include/prometheus/histogram.h'],[('lower_bound bucket choice','Histogram::Observe'),('cumulation','Histogram::Collect')],observe=['Histogram::Collect'])
p('C04','Histogram bulk update, reset and construction are exact',
 'Adding pre-bucketed increments is equivalent to making that many single observations, and is refused without any effect when the number of increments is not the number of buckets. Reset returns the histogram to its freshly constructed state. A bound list is accepted exactly when it is strictly increasing.',
 ['inputs','histories'],'all bound lists up to the length bound (NaN excluded), all increment vectors of any small length, any interleaving of observe, bulk update and reset',
 'tests try three bound lists, one wrong length and one reset sequence',
 [H],[('length check','Histogram::ObserveMultiple'),('is_strict_sorted',H),('Histogram::Reset',H)],observe=['Histogram::Collect','exceptions'])
p('C05','A counter never goes down and counts exactly',
 'A counter starts at 0; incrementing by a non-negative amount adds exactly that amount, a negative amount leaves it unchanged, and only an explicit reset returns it to 0. Between resets the reported value never decreases, and collecting reports the current value without changing it.',
 ['inputs','histories'],'all sequences of increments with arbitrary non-NaN doubles, resets and reads',
 'tests use a few small fixed amounts; the guard must be right for every double (negative zero, denormals, infinities) and at any point of a history',
 ['core/src/counter.cc','core/src/gauge.cc'],[('negative guard','Counter::Increment(double)'),('Gauge::Change','core/src/gauge.cc')],observe=['Counter::Value','Counter::Collect'])
p('C06','Gauge arithmetic is exact under any sequence of operations',
 'A gauge starts at its initial value; set stores the given value, increment and decrement add and subtract the given amount (1 by default) in double arithmetic, and set-to-current-time stores the current Unix time in seconds. The reported value is always the result of folding the operations in order, for every double.',
 ['inputs','histories'],'all operation sequences up to the bound with arbitrary doubles and arbitrary clock values',
 'tests run fixed one- or two-step sequences with small integers and a loose clock comparison',
 ['core/src/gauge.cc'],[('Gauge::Change','core/src/gauge.cc')],observe=['Gauge::Value','Gauge::Collect'])
p('C07','Concurrent counter and gauge updates are never lost or torn',
 'When several threads update one counter or gauge concurrently, the final value is the result of applying all updates in some order, and every concurrent read returns a value that some prefix of such an order produces. No execution contains a data race.',
 ['schedules','inputs'],'all interleavings of the atomic steps of the bounded set of threads and operations, with symbolic amounts',
 'no test is multi-threaded; a lost update needs one particular interleaving of load and store',
 ['core/src/gauge.cc','core/src/counter.cc'],[('compare-exchange loop','Gauge::Change')],[('value_','current value, atomic','core/include/prometheus/gauge.h')],observe=['Value','Collect'])
p('C08','A histogram snapshot is consistent under concurrency',
 'Every collection taken while other threads observe, bulk-update or reset shows the state after some whole number of those operations: count, +Inf bucket, all buckets and sum belong to the same set of operations. No update is lost, and no execution contains a data race or deadlock.',
 ['schedules','inputs'],'all interleavings of the bounded threads at lock and atomic operations, with symbolic observed values',
 'no test is multi-threaded; a torn snapshot needs a collection in the middle of an observation',
 [H],[('mutex','Histogram::Observe, ObserveMultiple, Reset, Collect')],[('mutex_','guards bucket counts and sum together','core/include/prometheus/histogram.h')],observe=['Histogram::Collect'])
S='core/src/summary.cc'; CK='core/src/detail/ckms_quantiles.cc'; TW='core/src/detail/time_window_quantiles.cc'
p('C09','A summary snapshot is consistent under concurrency',
 'Every collection taken while other threads observe into or collect from the same summary shows count, sum and quantiles of one and the same set of completed observations. No observation is lost, and no execution contains a data race or deadlock.',
 ['schedules','inputs'],'all interleavings of the bounded threads at lock operations, with symbolic observed values',
 'no test is multi-threaded, and collecting mutates internal state, so even two concurrent collections can conflict',
 [S,TW,CK],[('mutex','Summary::Observe, Summary::Collect')],[('mutex_','guards count, sum and the quantile estimator','core/include/prometheus/summary.h')],observe=['Summary::Collect'])
p('C10','Exactly the valid metric and label names are accepted',
 'A metric name is accepted exactly when it matches [a-zA-Z_:][a-zA-Z0-9_:]* and does not start with two underscores. A label name is accepted exactly when it matches [a-zA-Z_][a-zA-Z0-9_]*, does not start with two underscores, and is not the one its metric type reserves (le for histograms, quantile for summaries). The answer does not depend on the locale.',
 ['inputs'],'all byte strings up to the length bound, for every metric type',
 'tests try about ten strings; the character classes must be right for all 256 byte values in every position',
 ['core/src/check_names.cc'],[('CheckMetricName','core/src/check_names.cc'),('CheckLabelName','core/src/check_names.cc')],observe=['CheckMetricName','CheckLabelName'])
F='core/src/family.cc'
p('C11','One time series per label set',
 'Within a family, adding the same label set again returns the same metric object unchanged, adding a different label set gives a different object, and membership queries and removal act on exactly the series named. A collection shows exactly one sample for each label set added and not removed, carrying the family\'s name, help, type, constant labels and its own labels, with the current value; an empty family shows nothing.',
 ['histories','inputs'],'all operation sequences up to the bound over symbolic label sets, for every outcome of hash collisions',
 'tests add one or two fixed label sets; label sets that collide in the hash table, or differ only in how names and values are split, are never tried',
 [F,'core/src/detail/utils.cc','core/src/detail/hash.h'],[('Family::Add','core/src/family.cc'),('LabelHasher','core/src/detail/utils.cc'),('Family::Collect',F)],[('metrics_','label set to metric object','core/include/prometheus/family.h')],observe=['Family::Add, Has, Remove, Collect'])
p('C12','Invalid label sets are refused and leave no trace',
 'Creating a family fails for exactly the invalid metric names and invalid or reserved constant label names. Adding a series fails for exactly the label sets with an invalid or reserved label name or with a name that is also a constant label. A refused operation changes nothing: membership, collection and all existing series are as before, so no exposed series ever carries an invalid or duplicate label name.',
 ['inputs','histories'],'all constant and metric label names up to the length bound, every metric type, after any short history',
 'tests use one bad name per case and only check that something is thrown, never that the family is unchanged afterwards',
 [F,'core/src/check_names.cc','core/src/registry.cc'],[('label checks after insertion','Family::Add'),('constructor checks','Family::Family')],observe=['exceptions','Family::Has','Family::Collect'])
R='core/src/registry.cc'
p('C13','Family names are unique in a registry under the chosen policy',
 'Registering a name that another metric type already uses always fails. Registering a name of the same type again returns the existing family if the policy is merge and the constant labels are equal, and fails otherwise. A failed registration changes nothing and a name becomes free again when its family is removed.',
 ['histories','inputs'],'all sequences of registrations and removals up to the bound over all five metric types, symbolic names and label sets and both policies',
 'tests try each ordered pair of types in one direction with fixed names and the default policy; combinations of policy, removal and label difference are not covered',
 [R],[('NameExistsInOtherType',R),('Registry::Add',R),('Registry::Remove',R)],[('counters_, gauges_, ...','the families, by type','core/include/prometheus/registry.h')],observe=['Builder::Register','Registry::Remove','Registry::Collect'])
p('C14','A registry collection is complete and exact',
 'Collecting a registry returns every registered family that has at least one series, exactly once, with the name, help, type, labels and current values given when it and its series were created, and nothing else. Removing a family removes exactly that family and reports whether it was present; references to other families and series stay valid.',
 ['histories','inputs'],'all sequences of register, add, update, remove and collect up to the bound, over all metric types',
 'tests collect a registry with one family; loss, duplication or mix-up of families needs several families of several types and a removal in between',
 [R,F,'core/src/detail/builder.cc','core/src/info.cc'],[('CollectAll',R),('Registry::Remove',R),('Builder',"core/src/detail/builder.cc")],observe=['Registry::Collect'])
p('C15','Registries and families may be used from many threads',
 'Concurrent registration, adding, removal, membership queries and collection on one registry or family contain no data race and no deadlock, and have the same outcome as some sequential order: in particular two threads adding the same label set or registering the same name obtain the same object, and a collection sees each other operation entirely or not at all.',
 ['schedules'],'all interleavings of the bounded threads at lock operations',
 'no test uses more than one thread',
 [R,F],[('mutex','Registry::Add, Remove, Collect; Family::Add, Remove, Has, Collect')],[('mutex_','guards the family lists and the series map','registry.h, family.h')],observe=['Builder::Register','Family::Add','Registry::Collect'])
p('C16','Summary count, sum and quantiles are faithful',
 'A summary reports the exact number of observations and their floating-point sum over its lifetime, and one value per configured quantile, in the configured order. While no observation has expired, each reported quantile is one of the observed values and its rank among them is within the configured error (plus one rank of rounding) of the requested quantile; with no observation in the window it is NaN.',
 ['inputs','histories'],'all orderings of the bounded number of symbolic values (ties included) with collections interleaved anywhere, also on top of large concrete histories that have gone through batching and compression',
 'tests feed one monotone sequence; insertion position, ties, batch boundaries and compression depend on the order of arrival and on when collections happen',
 [S,CK],[('insertBatch',CK),('compress',CK),('get',CK)],[('sample_','compressed ranks',CK),('buffer_','not yet merged observations',CK)],observe=['Summary::Collect'])
p('C17','Summary quantiles forget observations within the time window',
 'For every clock history, an observation influences the quantiles for at least max_age*(1-1/age_buckets) after it was made and no longer than max_age after it (to clock rounding), however long the summary was idle in between. Count and sum are never forgotten.',
 ['histories','inputs','configurations'],'all non-decreasing clock readings (symbolic, bounded number of elapsed intervals) for sequences of observations and collections, for several window and bucket settings',
 'one test sleeps 600 ms twice with one observation; rotation boundaries, idle gaps spanning several rotations and multiple observations are not reachable by sleeping',
 [TW,S],[('rotate',TW)],[('last_rotation_','start of the current interval','time_window_quantiles.h')],observe=['Summary::Collect'])
p('C18','Base64 encoding and decoding are inverse and strict',
 'Decoding the base64 encoding of any byte string gives back that string, and the encoding is the one RFC 4648 defines. Decoding fails for every input that is not a sequence of four-character groups over the base64 alphabet with correct padding at the very end, and never reads outside its input.',
 ['inputs'],'all byte strings up to the length bound, as decoder input and as encoder input',
 'tests use 18 fixed vectors and three malformed inputs; padding and sign errors show only for particular bytes at particular offsets',
 ['util/include/prometheus/detail/base64.h'],[('base64_encode','base64.h'),('base64_decode','base64.h')],observe=['detail::base64_encode, base64_decode'])
G='push/src/gateway.cc'; CW='push/src/detail/curl_wrapper.cc'
p('C19','Push URLs identify exactly the given grouping key',
 'Every request URL is <base>/metrics followed by the job name, the gateway\'s labels and the collectable\'s labels as path segments, such that decoding the path as the Pushgateway documents (after standard dot-segment removal) yields exactly the given job name and label values, for any bytes in them. Plain values of unreserved characters are sent unencoded; two different grouping keys never share a URL.',
 ['inputs'],'all job names and label values (any bytes up to the length bound, empty included), any base URL with or without trailing slash',
 'tests encode four fixed values; correctness of the escape decision must hold for all bytes, including values such as "." that URL processing rewrites',
 [G,'push/src/detail/label_encoder.cc','util/include/prometheus/detail/base64.h'],[('encodeLabel','push/src/detail/label_encoder.cc'),('getUri',G)],observe=['URL given to the HTTP client','detail::encodeLabel'])
p('C20','A push sends every live collectable once and reports failure',
 'A push sends, in registration order, one request per registered collectable that is still alive, with that collectable\'s serialised metrics as body and its own grouping URL, and stops at the first response outside 100..399 (or transport error), returning that status; otherwise it returns 200. Collectables that no longer exist are skipped, and deletion requests address the job or the job plus the gateway\'s labels.',
 ['fault_sequences','histories','inputs'],'all status codes and transport errors per request (symbolic), all subsets of expired collectables, push, push-add and both deletions',
 'no unit test exercises the gateway at all (no server is available to it)',
 [G],[('push',G),('RegisterCollectable',G)],[('collectables_','registered collectables and their label paths','push/include/prometheus/gateway.h')],observe=['HTTP client calls','return value'])
p('C21','Each HTTP request is self-contained and resources are balanced',
 'Every request is sent with exactly its own method, URL, body and length, the text exposition content type, all headers the user added, and the user\'s connection settings applied; nothing carries over from an earlier request. Transport errors are reported as negative values and responses as their status. Every way of constructing, using and destroying the client, including failures of the HTTP library at any call, releases each handle exactly once.',
 ['fault_sequences','histories'],'all sequences of requests up to the bound with failures injected at any HTTP-library call',
 'no test reaches this code; failure of an initialisation step needs fault injection',
 [CW,G],[('performHttpRequest',CW),('constructor/destructor',CW),('addHttpHeader',CW)],observe=['curl_* calls'])
p('C22','Asynchronous operations equal their synchronous counterparts',
 'An asynchronous push or deletion performs the same requests with the same content as of the time of the call, and its future becomes ready only after all of them have finished, with 200 if all succeeded and otherwise the status of a failed one. No request reads data that has already been destroyed, under any interleaving of the request threads.',
 ['schedules','fault_sequences'],'all interleavings of the request threads at lock and future operations, all per-request outcomes',
 'no test reaches this code; lifetime errors show only when a request runs after the call has returned',
 [G,CW],[('async_push',G),('CurlWrapper mutex',CW)],observe=['futures','HTTP client calls'])
B='pull/src/basic_auth.cc'
p('C23','Only requests with accepted credentials reach a protected endpoint',
 'On an endpoint with authentication, a request is served exactly when its Authorization header is "Basic " followed by valid base64 of user:password and the user\'s callback accepts precisely that user (up to the first colon) and password (everything after it). Every other request, whatever bytes its header contains, receives a 401 challenge naming the realm, no metrics, and reaches the callback only with decoded credentials.',
 ['inputs'],'all header values up to the length bound (any bytes, absent header included), all callback decisions',
 'six integration tests send well-known headers; the parser consumes attacker-controlled bytes',
 [B,'pull/src/endpoint.cc','util/include/prometheus/detail/base64.h'],[('AuthorizeInner',B),('WriteUnauthorizedResponse',B)],observe=['HTTP response','callback arguments'])
HD='pull/src/handler.cc'
p('C24','A scrape returns exactly the live collectables of that endpoint',
 'A scrape of a URI returns the metrics of every collectable registered for that URI and still alive, in registration order, and of no other; expired ones are skipped silently and removal unregisters exactly the given one. Each URI\'s own exposer metrics count the completed scrapes and the body bytes sent on that URI.',
 ['histories','inputs'],'all sequences of register, remove, expire and scrape up to the bound over several URIs and collectables',
 'integration tests cover one register/unregister sequence on real sockets',
 ['pull/src/exposer.cc','pull/src/endpoint.cc',HD,'pull/src/metrics_collector.cc'],[('GetEndpointForUri','pull/src/exposer.cc'),('RegisterCollectable/RemoveCollectable',HD),('CollectMetrics','pull/src/metrics_collector.cc')],[('collectables_','weak references, per endpoint','pull/src/handler.h')],observe=['HTTP response body'])
p('C25','HTTP responses are framed and encoded correctly',
 'Each scrape response declares a Content-Length equal to the number of body bytes written, and its body decodes to the full exposition text. The body is gzip-compressed and labelled so only if the request\'s Accept-Encoding allows gzip, and any failure of the compressor falls back to the complete uncompressed text.',
 ['fault_sequences','inputs'],'all Accept-Encoding values up to the bound, all outcomes and output chunkings of the compression library within its contract',
 'tests make one request with and one without compression; compressor failures and multi-chunk output are never exercised',
 [HD],[('WriteResponse',HD),('GZipCompress',HD),('IsEncodingAccepted',HD)],observe=['bytes written to the connection'])
p('C26','Scraping is safe while endpoints and collectables change',
 'Registering, removing and scraping from different threads, and registering with a gateway during a push, contain no data race and no deadlock, and each scrape or push sees each registration entirely or not at all.',
 ['schedules'],'all interleavings of the bounded threads at lock operations',
 'no test changes registrations during a scrape',
 ['pull/src/exposer.cc',HD,G],[('collectables mutex',HD),('exposer mutex','pull/src/exposer.cc'),('gateway mutex',G)],observe=['HTTP response body','HTTP client calls'])
p('C27','Label identity, ordering and hashing agree',
 'Exported labels are ordered by a strict total order on (name, value) that agrees with equality. Label sets that are equal have equal hashes, and the hash of a label set depends on nothing but its content.',
 ['inputs'],'all triples of labels and pairs of label sets up to the length bound',
 'tests compare the hashes of three fixed sets and never check the ordering laws',
 ['core/include/prometheus/client_metric.h','core/src/detail/utils.cc','core/src/detail/hash.h'],[('operator< and operator==','client_metric.h'),('LabelHasher','utils.cc')],observe=['ClientMetric::Label comparisons','detail::LabelHasher'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
if __name__=='__main__':
    try:
        import jsonschema
        s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for q in P: jsonschema.validate(q,s)
        print('valid')
    except ImportError: pass
