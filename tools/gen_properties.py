"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os, re
S = "dask-gateway-server/dask_gateway_server/"
C = "dask-gateway/dask_gateway/"
G = "dask-gateway-server/dask-gateway-proxy/"
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, title
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=anchors))

p("C01", "A user reaches only the clusters they own",
  "A request authenticated as a user can list, view, scale, adapt or stop a cluster only if that cluster was created under exactly the same user name. For any other existing cluster the view, scale, adapt and stop requests answer 403, disclose nothing of the cluster's record and cause no effect on it; for a cluster that does not exist they answer 404 (stop: 204) with no effect. The owner's own requests are carried out, and a listing shows exactly the user's clusters in the requested states (by default those not asked to stop).",
  ["inputs", "configurations"], "every pair of user name and owner name, every cluster status, every operation and request body",
  "the tests try one or two concrete users on one operation; the guarantee is over all names, statuses and operations",
  [S+"routes.py", S+"models.py", S+"backends/db_base.py", S+"backends/kubernetes/backend.py"],
  [("ownership check on each route", S+"routes.py get_cluster/delete_cluster/scale_cluster/adapt_cluster/list_clusters"), ("permission predicate", S+"models.py User.has_permissions"), ("per-user listing", S+"backends/db_base.py DataManager.list_clusters")])
p("C02", "Cluster-to-gateway calls need that cluster's own token",
  "A heartbeat, or a stop request that is not user-authenticated, takes effect only if it carries token authorization whose token equals the token of the cluster named in the URL. With any other header, another cluster's token, or an unknown cluster, a heartbeat is refused with 401 and a stop request falls back to ordinary user authentication; neither has any effect by itself.",
  ["inputs"], "every header value, every pair of tokens and cluster names",
  "the tests send one good and one bad token", [S+"routes.py"], [("token wrapper", S+"routes.py _wrap_authenticated")])
p("C03", "Cached logins belong to the user who logged in and expire",
  "A request that presents a login cookie is handled, without re-authenticating, only as the user to whom that cookie was issued and only while no more than the configured maximum age has passed since it was issued. An unknown or expired cookie leads to full authentication, and when that fails the request handler does not run and no cookie is issued.",
  ["histories", "inputs"], "every sequence of logins and cookie uses by several users at arbitrary increasing times",
  "tests exercise one login and one reuse; expiry and interleaving of several users and re-logins are histories",
  [S+"auth.py"], [("cookie cache", S+"auth.py UserCache"), ("authenticate_and_handle", S+"auth.py Authenticator")])
p("C04", "Authenticators accept exactly the right requests and identities",
  "Password authentication yields the user name before the first colon and, when a password is configured, accepts only exactly that password; Kerberos yields the principal without realm only after every negotiation step succeeded. JupyterHub authentication accepts a token only if the hub accepted it and, when scopes are enforced, only with an access scope for this service; a service identity never equals a user identity, and hub failures map to 401 for an unknown token, 502 for hub errors and 500 otherwise.",
  ["inputs", "configurations"], "every credential, hub answer, scope set and configuration",
  "tests need a live hub/KDC and sample one answer per case", [S+"auth.py"],
  [("SimpleAuthenticator/KerberosAuthenticator/JupyterHubAuthenticator", S+"auth.py authenticate")])
p("C05", "Credentials and dashboard are exposed only while a cluster runs",
  "The record returned to a client contains TLS credentials if and only if the cluster is running, and a dashboard route if and only if it is running and has a dashboard; the summary form never contains credentials. The status a client sees is running exactly when the cluster's scheduler is up and nobody has asked for it to stop, and a stored (status, target) combination that the backend can produce always has a client-visible status.",
  ["inputs", "histories"], "every record and every reachable pair of current and desired state",
  "tests look at a few records in ordinary states", [S+"models.py", S+"backends/db_base.py"],
  [("to_dict", S+"models.py Cluster.to_dict"), ("status map", S+"backends/db_base.py Cluster.model_status")])
p("C06", "The derived worker limit is exactly what the resource limits allow",
  "For a cluster with limits on total cores, total memory and/or workers, the effective worker limit is the largest number of workers for which the scheduler plus those workers stay within every configured limit. A configuration in which not even the scheduler and zero workers fit, or in which a limit is ill-formed, is rejected instead of being given a limit, and without any limit the number is unlimited.",
  ["inputs", "configurations"], "every combination of limits and per-worker and per-scheduler requests, integer or fractional",
  "tests sample a handful of combinations; off-by-one errors sit at the exact boundaries",
  [S+"backends/base.py", S+"traitlets.py"], [("ClusterConfig limits", S+"backends/base.py ClusterConfig"), ("memory parsing", S+"traitlets.py MemoryLimit")])
p("C07", "Scale and adapt requests are validated and clamped to the limit",
  "A scale request is forwarded to the scheduler only with a non-negative integer count, never above the cluster's worker limit, and is otherwise unchanged; anything else answers 422 with nothing forwarded. An adapt request on a limited cluster is forwarded with both bounds present, a bound above the limit replaced by the limit and a bound within it unchanged, and the reply says so whenever a value was lowered.",
  ["inputs", "configurations"], "every count, minimum, maximum, active flag and limit, including absent ones",
  "tests sample a few numbers", [S+"routes.py"], [("scale_cluster/adapt_cluster", S+"routes.py")])
p("C08", "Heartbeats update cluster and worker records exactly as reported",
  "A heartbeat sets the desired worker count to the reported count capped at the cluster's limit, records addresses only before the cluster is running, marks reported active or closing pending workers as running, and moves reported closed workers to stopped if their close was expected and otherwise to failed. It never changes a worker that is already finished, never stops more pending workers than the reported count makes surplus, prefers ones not yet submitted, and has no effect on a cluster that is unknown or asked to stop.",
  ["inputs", "histories"], "every heartbeat content and every state of the cluster and its workers",
  "tests replay a few heartbeats; the combinations of report and record are unbounded",
  [S+"backends/db_base.py"], [("on_cluster_heartbeat", S+"backends/db_base.py DBBackendBase")])
p("C09", "Cluster and worker lifecycles only move forward and end for good",
  "Under any interleaving of user requests, heartbeats, periodic checks, timeouts, backend failures and reconciliation, a cluster or worker record never moves to an earlier stage, never leaves a finished stage, and a desired stop is never withdrawn. A cluster becomes finished only after all its workers and its own job were asked to stop, its routes were removed and its waiters were released, and whichever of stopped or failed was requested when it finished is what is recorded.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of the backend's concurrent tasks at their suspension points, with arbitrary backend failures",
  "tests run one schedule; races between the check loops and reconciliation need specific interleavings",
  [S+"backends/db_base.py"], [("reconcile_cluster/reconcile_worker and the check loops", S+"backends/db_base.py DBBackendBase")])
p("C10", "Timeouts fire exactly for what exceeded them",
  "A timeout pass asks to fail exactly the still starting clusters created longer ago than the start timeout, the running clusters whose last heartbeat is older than the heartbeat timeout, and, in healthy running clusters, the submitted workers older than the worker start timeout; everything else is left untouched and everything it fails is queued for reconciliation. A submission to the backend that takes longer than the start timeout is cut off and fails.",
  ["inputs", "histories"], "every clock value, every start and heartbeat time, every status and target",
  "tests use real sleeps with large margins", [S+"backends/db_base.py"], [("_check_timeouts", S+"backends/db_base.py DBBackendBase")])
p("C11", "Scaling creates exactly the missing workers and stops retrying at the limit",
  "Reconciling a running cluster creates exactly as many new workers as the desired count exceeds the active ones, and none otherwise. Once consecutive worker start failures reach the configured limit the cluster is asked to fail and no further worker is created, and a worker that starts resets the count; submitting a worker that fails or times out counts as one failure and leads to that worker being stopped.",
  ["inputs", "histories"], "every desired count, every set of worker states, every failure count and limit",
  "tests use counts of one or two", [S+"backends/db_base.py"], [("_check_cluster_scale/_worker_to_submitted", S+"backends/db_base.py DBBackendBase")])
p("C12", "Restart recovers exactly the last committed state",
  "After a crash at any point, a restarted gateway's in-memory clusters and workers equal what the database last committed, under every index, and everything unfinished is queued again so it still reaches its desired state. While running, a successful change is visible in memory exactly when it is committed, and a failed database operation leaves memory unchanged.",
  ["crash_points", "histories"], "every sequence of record operations with a crash or database failure at any operation",
  "tests reload one database in one state", [S+"backends/db_base.py"], [("DataManager load and update methods", S+"backends/db_base.py DataManager"), ("queue loading", S+"backends/db_base.py DBBackendBase.setup")])
p("C13", "Secrets are stored only encrypted and read back unchanged",
  "With a persistent database, a cluster's token and TLS credentials reach the database only through the configured encryption, and decoding what was stored yields the same token, certificate and key for the right cluster. A persistent database without encryption keys, or with a key that is not 32 bytes, is refused.",
  ["inputs", "configurations"], "every token, certificate and key value, every database URL and key",
  "tests round-trip one value", [S+"backends/db_base.py"], [("encode/decode of credentials and key normalisation", S+"backends/db_base.py DataManager, _normalize_encrypt_key")])
p("C14", "Expiry removes exactly the old finished clusters",
  "Record cleanup removes exactly the clusters that stopped longer ago than the maximum age, from the database and every in-memory index, and reports how many; clusters that have not stopped or stopped recently stay retrievable by name and by user.",
  ["inputs", "histories"], "every set of clusters, owners, stop times and clock value",
  "tests expire one record", [S+"backends/db_base.py"], [("cleanup_expired", S+"backends/db_base.py DataManager")])
p("C15", "Proxies that follow the route feed converge to the gateway's routes",
  "A proxy that loads the route table and then applies the events the gateway sends it ends, after any sequence of route additions and removals, with exactly the gateway's current routes: every change has one event with the next consecutive id, no event after the proxy's position is skipped or repeated, and removing a route that is not there produces none. A proxy whose position is too old or unknown is told to reload instead of being sent a gap. Only a holder of the proxy token is given the feed.",
  ["histories", "schedules"], "every sequence of additions and removals, every retained-history length, every watcher position, gateway restarts",
  "tests use one or two routes and one watcher", [S+"proxy/core.py"], [("event log", S+"proxy/core.py Proxy add_route/remove_route/_append_event/_events_after/routes_handler")])
p("C16", "The reconciliation queue loses nothing and never runs an item twice at once",
  "Every item put in the queue is handed to a consumer after its last put, duplicate puts before a hand-out are merged, and an item handed out is not handed out again until it is marked done. A delayed put arrives no earlier than the earliest requested time and is not lost, a consumer waits only while nothing is available even if other waiters are cancelled, and after closing every consumer is told so.",
  ["schedules", "histories"], "every interleaving of puts, delayed puts, hand-outs, completions, cancellations and close",
  "tests try one interleaving each", [S+"workqueue.py"], [("WorkQueue", S+"workqueue.py")])
p("C17", "Retry delays and rate limits follow their formulas",
  "The retry delay of an item after n consecutive failures is the smaller of base times two to the n and the maximum, for every n, per item, and starts over after a reset. The rate limiter never grants more than burst plus rate times elapsed time within any window, and never delays a request for which that budget has room.",
  ["histories", "inputs"], "every failure count, every pair of items, every sequence of request times, rate and burst",
  "tests check a few failures and one rate", [S+"workqueue.py", S+"utils.py"], [("Backoff", S+"workqueue.py Backoff"), ("RateLimiter", S+"utils.py RateLimiter")])
p("C18", "Cluster options accept exactly the values their declaration allows",
  "A request's option values are accepted only if every name is declared and every value has the declared type and lies within the declared bounds or choices (selections map to the mapped value); otherwise the request is refused and nothing is started. Unset options take their defaults, the accepted values are what the configuration handler receives, and a value accepted on the client side is accepted by the server for the same declaration.",
  ["inputs", "configurations"], "every declared field with arbitrary bounds and every value including special floating-point values",
  "tests sample a few values per field kind", [S+"options.py", C+"options.py", S+"backends/base.py"], [("field validation", S+"options.py Field.validate"), ("client fields", C+"options.py"), ("processing", S+"backends/base.py process_cluster_options")])
p("C19", "Memory sizes keep their meaning through parsing and formatting",
  "A memory size given as a number with a unit is the number times that unit, and the value a batch scheduler is given for it is never less than configured for sizes of at least 10 KiB and exceeds it by less than one unit of the printed resolution. Malformed sizes and sizes below a declared minimum are refused.",
  ["inputs"], "every size and unit within bounds", "tests check a table of ten values",
  [S+"traitlets.py", S+"backends/jobqueue/slurm.py", S+"backends/jobqueue/pbs.py"], [("MemoryLimit", S+"traitlets.py"), ("format_memory", S+"backends/jobqueue/slurm.py slurm_format_memory, pbs.py pbs_format_memory")])
p("C20", "User-supplied environment cannot override what the gateway sets",
  "The environment of every scheduler and worker contains the gateway's own values for its API address, cluster name, token and TLS settings, whatever variables the cluster's configuration supplies, and all other supplied variables are passed through unchanged (a local backend may set those it is configured to inherit).",
  ["inputs", "configurations"], "every supplied variable name and value, every backend", "tests use one harmless variable",
  [S+"backends/db_base.py", S+"backends/local.py", S+"backends/kubernetes/controller.py"], [("get_env and the per-backend variants", S+"backends/db_base.py, local.py, kubernetes/controller.py")])
p("C21", "Messages to a scheduler are delivered or reported as failed",
  "A scale or adapt message is sent only to the cluster's own scheduler with its token; if it is delivered the request succeeds, and if the scheduler keeps failing the cluster is told to stop as failed and the requester gets a conflict error. Nothing is sent for a cluster that is not running.",
  ["fault_sequences", "inputs"], "every sequence of delivery outcomes and every cluster status", "tests never fail delivery",
  [S+"backends/base.py"], [("forward_message_to_scheduler", S+"backends/base.py Backend")])
p("C22", "Local clusters keep files private and their processes are always stopped",
  "Starting a local cluster creates its working directory and credential files with no access for other users, changes ownership of exactly what it created, and never of anything else; its processes run as the cluster's user. Stopping a cluster or worker ends its process if it is still running, first politely and then forcibly once the grace time is over, and treats a process that is already gone as stopped; a status check reports a process (or in-process cluster or worker) alive exactly when it is.",
  ["inputs", "fault_sequences"], "every set of paths, process liveness history and timing", "tests start one process as the current user",
  [S+"backends/local.py", S+"backends/inprocess.py"], [("setup_working_directory", S+"backends/local.py LocalBackend"), ("stop_process", S+"backends/local.py")])
p("C23", "Batch jobs are tracked by their real state and always cancelled",
  "A job submitted for a scheduler or worker is recorded under the id the batch system returned; a status check reports a job as alive exactly when the batch system reports it as waiting, held, starting or running (or completing), and stopping a started cluster or worker cancels that job as the owning user. A failed submission is reported with its output and records no job.",
  ["inputs", "fault_sequences"], "every batch-system answer within bounds and every order of failures", "tests parse two recorded outputs",
  [S+"backends/jobqueue/base.py", S+"backends/jobqueue/slurm.py", S+"backends/jobqueue/pbs.py"], [("start/stop/check", S+"backends/jobqueue/base.py"), ("parsers", S+"backends/jobqueue/slurm.py, pbs.py")])
p("C24", "The job launcher keeps to its staging directory and always answers",
  "For every start or stop request the launcher runs exactly the given command once and reports its return code and output; staged files are written before a start, privately, only inside the staging directory, and removed after a stop or a failed start, whether or not the directory is still there.",
  ["inputs", "fault_sequences"], "every request, file set and file-system or command failure", "no test runs the launcher's failure paths",
  [S+"backends/jobqueue/launcher.py"], [("launcher", S+"backends/jobqueue/launcher.py")])
p("C25", "The scheduler reports its workers truthfully and adapts within bounds",
  "Each heartbeat reports every worker the scheduler knows as active or closing and every worker that left as closed until a heartbeat carrying it succeeded, together with the currently requested count; a changed count or an unexpectedly lost worker is reported soon, not with the next regular heartbeat. An authenticated scale request sets that count exactly and is always answered; adaptive scaling only requests counts between its minimum and maximum, retires only what exceeds the request, and an idle cluster asks to be shut down only after having had no running or waiting work for the whole configured time, and then asks until it is heard.",
  ["histories", "schedules", "fault_sequences"], "every sequence of worker joins, departures, scale and adapt requests, heartbeat successes and failures",
  "tests drive one join and one departure", [C+"scheduler_preload.py"], [("plugin and service", C+"scheduler_preload.py")])
p("C26", "The Kubernetes controller converges to the requested number of workers",
  "Reconciling a running cluster creates exactly the missing worker pods when fewer are active or already requested than desired, and when there are more it deletes only pods that have not started yet, at most the surplus, besides pods that have finished; it never deletes running workers that are not leaving, and creations still in flight are not repeated until observed or failed. The number desired is the one the scheduler last reported, capped at the cluster's maximum.",
  ["histories", "schedules", "fault_sequences"], "every desired count, every set of pending, running, finished pods and in-flight creations",
  "integration tests need a live cluster; unit tests cover helpers only", [S+"backends/kubernetes/controller.py"], [("handle_scale_up/down, expectations", S+"backends/kubernetes/controller.py")])
p("C27", "The Kubernetes controller's cluster phases move forward and clean up everything",
  "A cluster object only moves from new through pending and running to stopped or failed, a finished one stays finished, and every object the controller created for it is deleted or garbage collected when it ends. Creating an object that already exists is not an error, an API error leads to a retry and not to a lost cluster, and a scheduler pod that finished or failed leads to the end of the cluster.",
  ["histories", "fault_sequences"], "every phase, pod state and API answer sequence within bounds", "integration tests need a live cluster",
  [S+"backends/kubernetes/controller.py"], [("handle_cluster and helpers", S+"backends/kubernetes/controller.py KubeController")])
p("C28", "Watched Kubernetes state is mirrored faithfully",
  "After any sequence of list results and add, modify and delete events the local mirror of watched objects equals the last reported state of each object, and every reported state or deletion is notified exactly once, with no change missed. The gateway's view of a cluster derives from the newest reported object, and a client waiting for a cluster is released when it becomes ready, fails or disappears.",
  ["histories", "fault_sequences"], "every sequence of lists, events, stream errors and restarts", "tests use no live watch",
  [S+"backends/kubernetes/utils.py", S+"backends/kubernetes/backend.py"], [("Informer", S+"backends/kubernetes/utils.py"), ("sync_cluster", S+"backends/kubernetes/backend.py KubeBackend")])
p("C29", "The client reports every server answer as the right result or error",
  "A client request is retried exactly once, after authenticating, when the server answers 401, and otherwise its answer is final: success is returned; 404 and 422 raise ValueError, 409 GatewayClusterError and 500 GatewayServerError, each with the server's message; every other error status raises an HTTP error with that status, and a failed connection is reported as such. Waiting for a cluster returns only a running cluster and raises when it failed, stopped or vanished.",
  ["inputs", "fault_sequences"], "every sequence of status codes, bodies and cluster reports", "tests sample a few codes",
  [C+"client.py", C+"auth.py"], [("_request", C+"client.py Gateway"), ("_wait_for_start", C+"client.py Gateway")])
p("C30", "A client-side cluster handle manages the remote cluster exactly once",
  "Closing a handle that owns its cluster asks the gateway to stop that cluster exactly once and releases its connections, a handle opened without ownership never stops it, and closing again does nothing. The addresses the client derives are those given by the user or configuration, normalised without changing host, port or path.",
  ["histories", "inputs"], "every order of close, context exit and finalisation, every address form within bounds", "tests use one order and a few addresses",
  [C+"client.py"], [("GatewayCluster lifecycle", C+"client.py"), ("address parsing", C+"client.py")])
p("C31", "The proxy routes a path to its longest registered prefix",
  "After any sequence of route additions and removals a request path is matched to the target registered for the longest registered route that is a whole-segment prefix of it, together with the remaining path, and to nothing when no such route exists; the quick existence test agrees with the match.",
  ["inputs", "histories"], "every sequence of additions and removals and every request path within bounds", "tests use one fixed tree",
  [G+"pkg/router/router.go"], [("Router", G+"pkg/router/router.go Match/HasMatch/Put/Delete")])
p("C32", "The proxy's tables equal the routes it was told",
  "After loading a full table and applying any sequence of valid route events, the proxy's HTTP and TLS tables contain exactly the routes that remain, each with its last target, and invalid or unknown routes are refused without disturbing the others. After a disconnect or a reload request it resumes from the last event applied or reloads completely, so no change is lost.",
  ["histories", "fault_sequences"], "every sequence of tables, events and connection failures within bounds", "no test drives the feed",
  [G+"cmd/dask-gateway-proxy/main.go"], [("UpdateFromRoutes/UpdateFromEvents/watchRoutes", G+"cmd/dask-gateway-proxy/main.go")])
p("C33", "Proxied HTTP requests reach the matched target with the right path",
  "A request whose path matches a route is forwarded to that route's target with the remaining path joined to the target's path by exactly one slash and the query kept, and a request that matches nothing gets an error and is forwarded nowhere; a web-socket upgrade keeps its upgrade and an ordinary request is never forwarded to another cluster's target.",
  ["inputs"], "every path, query and target within bounds", "tests use a few paths", [G+"cmd/dask-gateway-proxy/main.go"], [("ServeHTTP, director, singleJoiningSlash", G+"cmd/dask-gateway-proxy/main.go")])
p("C34", "TLS connections are passed through by server name without losing a byte",
  "A TLS connection is forwarded to the target registered for exactly the server name in its hello, receiving every byte the client sent from the first one in order and exactly once; a connection without a name or with an unregistered one is never forwarded to a cluster, and one bad connection never stops the proxy from serving others.",
  ["inputs", "fault_sequences"], "every split of the hello into reads, every name and table, accept and dial failures", "tests send one ordinary connection",
  [G+"pkg/sni/sni.go", G+"cmd/dask-gateway-proxy/main.go"], [("readClientHelloInfo/peeked connection", G+"pkg/sni/sni.go"), ("runTCP/handleConn", G+"cmd/dask-gateway-proxy/main.go")])
p("C35", "TLS key pairs identify the right cluster",
  "Every new cluster gets a fresh key and a self-signed certificate that names exactly that cluster and is valid for the documented time.",
  ["inputs"], "every cluster name", "tests generate one", [S+"tls.py"], [("new_keypair", S+"tls.py")])
p("C36", "YARN clusters are started, tracked and killed with the right application",
  "Each YARN cluster maps to one application whose containers follow the requested workers, and stopping it kills exactly that application.",
  ["fault_sequences"], "every answer of the resource manager", "tests need a YARN cluster", [S+"backends/yarn.py"], [("YarnBackend", S+"backends/yarn.py")])
p("C37", "Addresses are normalised without changing their meaning",
  "A configured listening address of the form host:port is accepted exactly when it has one colon and an integer port, keeps its host and non-zero port, and gets a concrete free port for port zero and, when asked, the machine's name for a wildcard host; anything else is refused.",
  ["inputs"], "every string within bounds", "tests use a few addresses", [S+"utils.py"], [("normalize_address", S+"utils.py")])
p("C38", "Per-launch caches and task groups keep their limits",
  "The bounded cache never holds more than its capacity, evicts the least recently used entry, and returns for each key the last value stored; closing a task group cancels every unfinished task it started and returns only when all have ended.",
  ["histories", "schedules"], "every sequence of cache operations, every set of task outcomes", "tests use one sequence",
  [S+"utils.py"], [("LRUCache, TaskPool, CancelGroup", S+"utils.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    assert len({q["id"] for q in P}) == len(P)
    for q in P:
        n = len(re.findall(r"[.](?:\s|$)", q["statement"]))
        assert n <= 3, (q["id"], n)
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
