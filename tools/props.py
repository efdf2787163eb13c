"""Single source of properties.jsonl and MANIFEST.json:
    python3 tools/props.py   rewrites both."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "dask-gateway-server/dask_gateway_server/"
C = "dask-gateway/dask_gateway/"
G = "dask-gateway-server/dask-gateway-proxy/"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                           "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None},
                  _na=na, _note=note, _tech=technique))


prop("C01", "A user can only see and act on their own clusters through the REST API",
     "For every request to the REST API made as an authenticated user, cluster details are returned, and a cluster is stopped, scaled, or adapted, only if that cluster belongs to the requesting user; a request about someone else's cluster is answered 403 and has no effect on it. Listing returns exactly the requesting user's clusters with the requested statuses, and a new cluster is always created for the requesting user with the options they sent. TLS credentials are only ever included for running clusters.",
     ["inputs", "histories"], "every route, every user, every cluster name, every body and query string, every set of existing clusters",
     "Tests log in as a couple of users and try a few routes; the guarantee is over all users, owners and request shapes, on every route.",
     [S + "routes.py", S + "models.py", S + "backends/db_base.py"],
     [("permission check before every action", S + "routes.py"), ("User.has_permissions", S + "models.py"), ("per-user index", S + "backends/db_base.py: DataManager.list_clusters"), ("Cluster.to_dict", S + "models.py")],
     [("username", "owner of a cluster", S + "models.py: Cluster")], ["HTTP responses", "calls on the backend"])

prop("C02", "Every endpoint demands its own credentials; a token opens only its cluster",
     "Every cluster endpoint refuses, before doing anything, a request carrying no valid credential (answering 401 when the header is missing or is well-formed but wrong), and only health and version are public. A cluster's API token authorises exactly that cluster's heartbeat and deletion and nothing else - not another cluster, and not any endpoint meant for users - and heartbeats are accepted with that token only. The routing-table endpoint serves only holders of the proxy token, and a scheduler's control endpoint acts only for holders of its cluster's token.",
     ["inputs"], "every route, every Authorization header, every pair of cluster name and token",
     "Tests send a handful of good and bad headers to a few routes.",
     [S + "routes.py", S + "proxy/core.py", C + "scheduler_preload.py"],
     [("_wrap_authenticated / api_handler", S + "routes.py"), ("Proxy.routes_handler", S + "proxy/core.py"), ("BaseHandler.get_current_user / CommHandler.post", C + "scheduler_preload.py")],
     [("token", "a cluster's API token", S + "models.py: Cluster"), ("api_token", "the proxy's token", S + "proxy/core.py")], ["HTTP status codes", "calls on the backend"])

prop("C03", "A request runs as a user only if that user was really authenticated",
     "A request is handled as a user only when the configured authenticator verified that request's credentials for that user, or when it carries a session cookie the gateway issued to that same user no longer ago than the cache lifetime; otherwise it is refused and its handler never runs. Basic credentials are checked against the configured password, Kerberos users are taken from a completed GSS exchange, and JupyterHub tokens are accepted only if the hub confirms them and (when required) they carry the service's access scope. A JupyterHub service can never obtain the identity of a hub user, nor two different hub identities the same user name.",
     ["inputs", "histories"], "every header, every provider answer, every history of logins and elapsed time",
     "Tests drive each authenticator with one good and a few bad credentials.",
     [S + "auth.py"],
     [("Authenticator.authenticate_and_handle", S + "auth.py"), ("UserCache", S + "auth.py"), ("SimpleAuthenticator.authenticate", S + "auth.py"), ("KerberosAuthenticator.authenticate", S + "auth.py"), ("JupyterHubAuthenticator.authenticate", S + "auth.py")],
     [("cookie_to_user", "issued cookies, when, and to whom", S + "auth.py: UserCache")], ["request['user'] seen by handlers", "HTTP status"])

prop("C04", "A cluster never gets more workers than its resource limits allow",
     "The worker limit of a new cluster is the largest number of workers such that they and the scheduler fit in the cluster's memory and core limits, capped by any explicit worker limit, and a cluster whose scheduler alone exceeds a limit is refused. Neither scaling (where the request must be a non-negative integer), nor adaptive bounds, nor the worker count a scheduler reports in its heartbeat can make the gateway ask for or start more workers than that limit. Scale and adapt requests above the limit are clamped to it and reported as such.",
     ["inputs", "configurations"], "every limit configuration, every integer scale or adapt request, every reported count",
     "Tests check a few limits and requests; off-by-one and combination errors need all of them.",
     [S + "backends/base.py", S + "routes.py", S + "backends/db_base.py", S + "backends/kubernetes/controller.py"],
     [("ClusterConfig.to_dict", S + "backends/base.py"), ("scale_cluster / adapt_cluster", S + "routes.py"), ("on_cluster_heartbeat", S + "backends/db_base.py"), ("_check_cluster_scale", S + "backends/db_base.py")],
     [("cluster_max_workers", "the limit", S + "backends/base.py")], ["message forwarded to the scheduler", "cluster record's count"])

prop("C05", "Clusters only ever use declared options with in-range values",
     "A cluster is only ever started from options that were declared by the administrator: an unknown option, a value of the wrong type, a number outside its bounds or a choice not offered is rejected with an error naming the problem, and anything accepted is within the declared type, range and choices. Options the user does not send take their declared defaults, and the configuration the cluster is started with is exactly what the administrator's handler makes of the validated values. The same bounds are enforced by the client-side options object.",
     ["inputs", "configurations"], "every set of declared options and every request",
     "Tests cover a few values per field type.",
     [S + "options.py", C + "options.py", S + "backends/base.py"],
     [("Options.parse_options / get_configuration", S + "options.py"), ("Field.validate and subclasses", S + "options.py"), ("process_cluster_options", S + "backends/base.py"), ("client fields", C + "options.py")],
     [], ["values reaching the cluster configuration"])

prop("C06", "Clusters only move forward, and a finished cluster was really torn down",
     "For database-backed gateways, a cluster's public status only ever moves forward (pending, running, stopping, then stopped or failed, which is final), and a cluster that has been told to stop never becomes running again or starts new workers. A cluster is recorded as stopped or failed only after its workers have been told to stop and its scheduler job was asked to stop (unless it was never submitted), its routes were removed from the proxy, and its stop time was recorded. The outcome recorded is the one requested: stopped when stopped by request, failed when it failed.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of API requests, heartbeats, timeouts, checks and reconciliation, with start/stop hooks failing at any point",
     "Tests exercise single clusters in quiet orders; the guarantee is over interleavings and failures of the start and stop hooks.",
     [S + "backends/db_base.py"],
     [("reconcile_cluster", S + "backends/db_base.py"), ("_cluster_to_*", S + "backends/db_base.py"), ("stop_cluster", S + "backends/db_base.py"), ("check loops", S + "backends/db_base.py")],
     [("status/target", "how far the cluster is, and where it should go", S + "backends/db_base.py: Cluster")], ["cluster status in the API", "calls of do_start/do_stop hooks", "proxy routes"])

prop("C07", "No cluster or worker is forgotten on its way to stopped",
     "Once a cluster or worker has been told to stop (by a user, a timeout, a failed check, or gateway shutdown), it is always either queued for processing or waiting on one of its own workers that is; so it is eventually stopped however its start hook, stop hook or other events interleave. Failures of the stop hook do not prevent the object from reaching its final state, and anyone waiting for the cluster to be ready or shut down is then released. After a gateway restart every unfinished cluster and worker is picked up again.",
     ["schedules", "fault_sequences", "crash_points"], "every interleaving and every failure of a hook, and a restart at any point",
     "A lost wakeup needs one particular interleaving; tests see a few.",
     [S + "backends/db_base.py", S + "workqueue.py"],
     [("queue.put after every change of target", S + "backends/db_base.py"), ("is_cluster_ready_to_close", S + "backends/db_base.py"), ("reconciler_loop", S + "backends/db_base.py"), ("setup / cleanup", S + "backends/db_base.py")],
     [("queue", "objects waiting to be reconciled", S + "backends/db_base.py")], ["final cluster status", "Flag waiters"])

prop("C08", "Workers follow the requested count and only move forward",
     "Each time a running cluster is reconciled, exactly as many new workers are created as are missing up to the requested count, and a running cluster one of whose workers stopped, for whatever reason, is reconciled again. When a heartbeat asks for fewer workers than exist, only workers that have not started yet are cancelled, at most as many as are in excess, and workers the scheduler reports as active or closing are never stopped; workers reported closed are finished as stopped if their closing was announced and as failed otherwise. A worker is recorded as stopped or failed only after the backend was asked to stop it (unless it was never submitted), never leaves that state, and repeated start failures beyond the configured limit fail the cluster.",
     ["inputs", "schedules", "histories"], "every set of workers in every state, every heartbeat, every interleaving",
     "Tests use a couple of workers in benign orders.",
     [S + "backends/db_base.py"],
     [("on_cluster_heartbeat", S + "backends/db_base.py"), ("_check_cluster_scale", S + "backends/db_base.py"), ("reconcile_worker, _worker_to_*", S + "backends/db_base.py")],
     [("count", "requested number of workers", S + "backends/db_base.py: Cluster"), ("worker_start_failure_count", "consecutive start failures", S + "backends/db_base.py: Cluster")], ["worker records", "start/stop hook calls"])

prop("C09", "Timeouts and health checks fail exactly what deserves it",
     "A submitted cluster past its start timeout, a running cluster whose last heartbeat is older than the heartbeat timeout, and a submitted worker past its start timeout are marked for failure at the next check, and nothing that is within its timeout or already stopping is touched. A pending cluster or worker that the backend reports dead is marked for failure, and no other; results are matched to the objects they were obtained for, and objects that changed meanwhile are left alone. Finished clusters are deleted from the records only once older than the configured age, and an error in one round never ends the periodic checks.",
     ["histories", "schedules", "configurations"], "every mix of clusters and workers with every age, every check result, every change made while a check was in flight",
     "Tests time out one cluster at a time.",
     [S + "backends/db_base.py"],
     [("_check_timeouts", S + "backends/db_base.py"), ("check_clusters_loop / check_workers_loop", S + "backends/db_base.py"), ("cleanup_expired", S + "backends/db_base.py")],
     [("last_heartbeat, start_time", "ages", S + "backends/db_base.py: Cluster")], ["targets of clusters and workers"])

prop("C10", "Memory and database always agree, so a restart loses nothing",
     "Every change to a cluster or worker is written to the database in a transaction and appears in memory with the same values, and only for the addressed object; if the database refuses the change, memory is unchanged too. Loading the database after a restart rebuilds every cluster and worker with the same identity, owner, status, addresses, credentials and counts, indexed consistently. A cluster is never listed under a user other than its owner, and removing old clusters removes them from every index.",
     ["histories", "crash_points", "fault_sequences"], "every sequence of creations, updates, deletions and restarts, with commits failing at any of them",
     "Tests restart once or twice from simple states and never fail a commit.",
     [S + "backends/db_base.py"],
     [("DataManager", S + "backends/db_base.py")],
     [("name_to_cluster, id_to_cluster, username_to_clusters", "indexes", S + "backends/db_base.py: DataManager")], ["DataManager methods", "database rows"])

prop("C11", "Cluster secrets are encrypted at rest and survive key rotation",
     "With a database that outlives the process, a cluster's API token and TLS key pair are only ever written to it encrypted under the first configured key, and decode to exactly what was stored under any configured key. Starting with such a database and no key is refused, as are keys that are not 32 bytes. Every cluster gets its own fresh random name, token and TLS key pair.",
     ["inputs", "configurations"], "every token, certificate, key list and database url",
     "Tests round-trip one value under one or two keys.",
     [S + "backends/db_base.py", S + "tls.py"],
     [("encode_/decode_ methods", S + "backends/db_base.py: DataManager"), ("_normalize_encrypt_key", S + "backends/db_base.py"), ("db_encrypt_keys validation", S + "backends/db_base.py")],
     [], ["rows in the database"])

prop("C12", "The work queue never loses work nor hands one item to two consumers",
     "An item put in the work queue is handed to a consumer after the put, no matter how puts, gets, completions, delays, cancellations and closings interleave; duplicates put before it is taken are merged, and an item put again while being processed is handed out again after it is done. No two consumers ever hold the same item. A delayed put happens no later than the earliest requested time, and after closing every consumer is told so.",
     ["schedules", "histories"], "every interleaving of producers, consumers and cancellations",
     "Tests run a few fixed interleavings.",
     [S + "workqueue.py"],
     [("WorkQueue", S + "workqueue.py")],
     [("_queue, _dirty, _processing, _waiting, _timers", "items queued, pending, held; sleeping consumers; delayed puts", S + "workqueue.py")], ["WorkQueue API"])

prop("C13", "Retries back off up to a cap, and launch rates stay under their limit",
     "The n-th consecutive retry of an item waits min(maximum, base * 2^n), for every n and without ever failing, returning to the base after a success and independently per item. A rate limiter configured with a rate and a burst lets at most burst + rate*t operations through in any interval of length t, and delays none that the rate and burst allow outright.",
     ["histories", "inputs"], "every history of failures and successes, every sequence of arrival times",
     "Tests sample a few delays.",
     [S + "workqueue.py", S + "utils.py"],
     [("Backoff", S + "workqueue.py"), ("RateLimiter", S + "utils.py")],
     [("_failures", "failures per item", S + "workqueue.py: Backoff"), ("_tokens", "available permits", S + "utils.py: RateLimiter")], ["delays returned"])

prop("C14", "The proxy's view of the routing table always converges to the gateway's",
     "The routing table served to the proxy is exactly the result of the route additions and removals made so far, and the id served with it is that of the last change. A proxy that watches the running gateway from the id it last saw receives every later change exactly once and in order, or is told to fetch the full table again (as it is for an id this gateway never issued); it is never silently left without a change, whatever number of changes was dropped from the log. Routes are namespaced under the configured prefix and each change takes a new id.",
     ["histories", "schedules"], "every history of route changes, log truncations, and reconnections from any id",
     "Tests add and remove a handful of routes with one watcher.",
     [S + "proxy/core.py"],
     [("add_route / remove_route / _append_event", S + "proxy/core.py"), ("_events_after", S + "proxy/core.py"), ("routes_handler", S + "proxy/core.py")],
     [("routes", "current table", S + "proxy/core.py"), ("events, offset, _next_id", "change log", S + "proxy/core.py")], ["GET /api/v1/routes"])

prop("C15", "HTTP requests are routed to the most specific matching route",
     "For every table of path routes built by any sequence of additions and removals, a request path is sent to the target of the longest route that is a whole-segment prefix of the path, with exactly the unmatched remainder forwarded, joined to the target's own path by one slash, and with the request's query; a path without any such route is answered 404 and not forwarded. Adding or removing a route affects no other route, whatever slashes a path begins or ends with. No path makes the router fail.",
     ["inputs", "histories"], "every sequence of route additions and removals and every path",
     "The Go tests use one small table.",
     [G + "pkg/router/router.go", G + "cmd/dask-gateway-proxy/main.go"],
     [("Router.Match/HasMatch/Put/Delete, normalizePath, getSegment", G + "pkg/router/router.go"), ("Proxy.ServeHTTP, singleJoiningSlash", G + "cmd/dask-gateway-proxy/main.go")],
     [("branches, url", "trie of path segments", G + "pkg/router/router.go")], ["Router.Match", "requests the proxy sends"])

prop("C16", "The proxy applies route updates faithfully and forwards TLS by SNI only",
     "The proxy's tables after any sequence of full tables and events, of any size, are what those say, in their order; an invalid route changes nothing. The proxy asks for events from the last one it applied, and after a stream that failed, an unreadable message or an expired position it fetches the whole table again. A TLS connection is forwarded only to the scheduler registered at that moment under the name in its SNI; an unknown name reaches nobody, and anything that is not for a scheduler goes to the HTTP server or is closed. All bytes the client sent are delivered unmodified and in order, including those read while looking for the SNI; when one side stops sending, the other direction goes on until it ends too. One connection that fails, or that cannot be accepted, leaves the others unaffected.",
     ["inputs", "histories"], "every sequence of route messages, every connection",
     "There are no Go tests of the proxy command.",
     [G + "cmd/dask-gateway-proxy/main.go", G + "pkg/sni/sni.go"],
     [("Route.Validate, putRoute, deleteRoute, UpdateFrom*, evIter, watchRoutes", G + "cmd/dask-gateway-proxy/main.go"), ("handleConnection, proxyConnections, runTCP", G + "cmd/dask-gateway-proxy/main.go"), ("ReadSNI, peekedTCPConn", G + "pkg/sni/sni.go")],
     [("sniRoutes, router", "tables", G + "cmd/dask-gateway-proxy/main.go")], ["tables of the proxy", "proxied connections"])

prop("C17", "On Kubernetes, worker pods follow the requested replicas",
     "For every state of a running cluster's worker pods and every requested replica count, a reconciliation creates exactly the missing workers; when there are too many it deletes only pending pods, no more than the excess, and never a running worker. Pods that ended are removed and no longer counted, so a failed worker is replaced while its cluster still wants it; pods not scheduled yet or restarting are counted. Creations and deletions that were requested but not seen yet are waited for (ten minutes at most) before anything more is requested, so no order of pod events makes the controller create too many workers; a request that failed is not waited for and is tried again. Workers belong to their cluster's scheduler pod, and events of one cluster never change what is known of another.",
     ["schedules", "histories", "fault_sequences"], "every set of pods in every phase, every order of pod events, every API failure",
     "Controller tests need a live cluster and are not run; a few unit tests cover helpers.",
     [S + "backends/kubernetes/controller.py"],
     [("ClusterInfo", S + "backends/kubernetes/controller.py"), ("on_pod_update, on_pod_delete", S + "backends/kubernetes/controller.py"), ("handle_running_cluster, handle_scale_up, handle_scale_down, batch_create_pods, create_pod, delete_pod", S + "backends/kubernetes/controller.py")],
     [("pending, running, succeeded, failed, all_pods, creates, deletes", "pod bookkeeping", S + "backends/kubernetes/controller.py: ClusterInfo")], ["pod create/delete API calls"])

prop("C18", "On Kubernetes, phases only move forward and finished resources are removed",
     "A cluster resource moves from pending to running and then to stopped or failed, each step decided on the record the controller knows; a finished one stays as it is. It becomes running only once its scheduler container runs, its endpoints are all ready and its credentials, scheduler pod, service and routes exist; each of these is created once, recorded, labelled with its cluster, and its routes lead to its own scheduler only. A cluster told to stop, or whose scheduler pod ends, has its scheduler pod and credentials deleted before it is recorded, with the time, as stopped (by request) or failed; its service, routes and worker pods belong to the scheduler pod and go with it. An API failure at any point is retried and leaves nothing half recorded. Records of completed clusters are deleted only when older than the configured age, and then are.",
     ["schedules", "histories", "fault_sequences"], "every stored status, every event order and API failure",
     "Controller tests need a live cluster and are not run.",
     [S + "backends/kubernetes/controller.py"],
     [("handle_cluster, handle_pending_cluster, handle_running_cluster, reconcile_cluster, reconciler_loop", S + "backends/kubernetes/controller.py"), ("cleanup_cluster_resources, create_*_if_not_exists, make_service, make_ingressroute*", S + "backends/kubernetes/controller.py"), ("cleanup_expired_cluster_records_loop", S + "backends/kubernetes/controller.py"), ("on_pod_update, on_pod_delete, on_endpoints_update, on_cluster_update, on_cluster_delete", S + "backends/kubernetes/controller.py")],
     [("status.phase", "phase in the resource", S + "backends/kubernetes/controller.py"), ("stopped_clusters", "finished clusters and when they finished", S + "backends/kubernetes/controller.py")], ["Kubernetes API calls", "status patches"])

prop("C19", "On Kubernetes, the gateway's cache mirrors the cluster resources",
     "After any sequence of watch events, broken watches, reconnections and full relists, the gateway's cached objects are those last reported by the API server; its handlers are told of every change and removal, with the object known before, including those noticed only when listing again, and a failing handler changes nothing else. Watching resumes after the last version seen, goes back to a full listing on any error, and ends only when cancelled. A cluster's reported state, addresses, owner and options follow its resource, its credentials come only from its own secret (a failed read is retried), and it is indexed under its owner only. A client waiting for a cluster is released when it runs, stops, fails or disappears. Starting and stopping a cluster creates and changes exactly its own resource.",
     ["histories", "schedules", "fault_sequences"], "every sequence of events, disconnections and relists",
     "Needs a live API server; tests do not run it.",
     [S + "backends/kubernetes/utils.py", S + "backends/kubernetes/backend.py"],
     [("Informer", S + "backends/kubernetes/utils.py"), ("KubeBackend event handlers", S + "backends/kubernetes/backend.py")],
     [("cache", "last known objects", S + "backends/kubernetes/utils.py: Informer")], ["list_clusters, get_cluster"])

prop("C20", "Processes start with their own cluster's identity, TLS and resource limits",
     "On every backend, the environment of a scheduler or worker process contains the gateway's API address, its own cluster's name and token (on Kubernetes the mounted token file), the TLS file settings and, except on Kubernetes, the required-encryption setting; user-supplied environment variables can never override these and all others are passed on. The scheduler's command line carries the configured heartbeat, adaptive and idle settings and forces TLS; the worker's carries its own name, its cluster's scheduler address, and its configured thread and memory limits. Job submissions request the configured cores and memory, and run as the cluster's owner.",
     ["inputs", "configurations"], "every cluster, worker and configuration, on every backend",
     "Tests compare a few generated commands.",
     [S + "backends/db_base.py", S + "backends/local.py", S + "backends/jobqueue/base.py", S + "backends/jobqueue/pbs.py", S + "backends/jobqueue/slurm.py", S + "backends/kubernetes/controller.py"],
     [("get_env, get_scheduler_command, get_worker_command", S + "backends/db_base.py"), ("get_submit_cmd_env_stdin", S + "backends/jobqueue"), ("make_pod", S + "backends/kubernetes/controller.py")],
     [], ["environment and argv of started processes"])

prop("C21", "Credentials on disk are private to the owner and removed afterwards",
     "On the local, in-process and job queue backends, a cluster's TLS certificate and key are written, and are exactly that cluster's, into a directory of its own that is created accessible to nobody but its owner (on the local backend every file in it too), before its scheduler is started. When a started cluster is stopped the directory is removed, whatever else fails, and no other directory is touched; a start that fails before the scheduler process or job exists leaves no credentials behind. The client's temporary copies are made in a private directory that is removed as soon as they are loaded, or loading failed.",
     ["inputs", "fault_sequences"], "every cluster, every failure while writing or stopping",
     "Tests run as one user and do not inspect permissions or failures.",
     [S + "backends/local.py", S + "backends/jobqueue/launcher.py", S + "backends/jobqueue/base.py", C + "client.py"],
     [("setup_working_directory / cleanup", S + "backends/local.py"), ("launcher start/stop", S + "backends/jobqueue/launcher.py"), ("GatewaySecurity", C + "client.py")],
     [], ["file modes and owners", "files remaining"])

prop("C22", "Liveness checks report each cluster and worker by its own job",
     "On the local, in-process, PBS, Slurm and YARN backends, checking a list of clusters or workers returns one answer per object, in order: alive exactly if that object's own process, server, job, application or container is still pending or running. An object without a job, or whose job is not in the answer, counts as dead. A PBS or Slurm status command that exits with an error makes the check fail; it is never mistaken for an answer. On YARN, failing to list the containers of one cluster counts only that cluster's workers as dead.",
     ["inputs", "histories"], "every list of objects with every mix of job states",
     "Tests check one object at a time, and the PBS, Slurm and YARN checks not at all.",
     [S + "backends/jobqueue/base.py", S + "backends/jobqueue/pbs.py", S + "backends/jobqueue/slurm.py", S + "backends/yarn.py", S + "backends/local.py", S + "backends/inprocess.py"],
     [("do_check_clusters / do_check_workers", S + "backends/*")],
     [], ["the returned list"])

prop("C23", "The scheduler service reports its workers faithfully and scales as told",
     "Every heartbeat reports, in three disjoint lists, exactly the workers that ever joined: those connected are active or closing, those that left are closed. Only workers announced as closing in a message the gateway accepted are retired. An explicit scale request turns adaptive scaling off and sets the requested count; a new count is announced at once, also if it is requested while a heartbeat is under way. Adaptive scaling keeps its requests within the last requested bounds (minimum at most maximum) and moves to the scheduler's target. A failed heartbeat is retried after a growing delay of at most the heartbeat period. A cluster with an idle timeout asks the gateway to shut it down when it has been idle for longer than that, and never while a worker is busy or tasks wait for workers.",
     ["schedules", "histories", "inputs"], "every order of joins, departures, heartbeats, scale and adapt messages",
     "Tests run a live cluster through a few steps.",
     [C + "scheduler_preload.py"],
     [("GatewaySchedulerService", C + "scheduler_preload.py")],
     [("active_workers, closing_workers, closed_workers, count", "worker lists and requested count", C + "scheduler_preload.py")], ["heartbeat messages"])

prop("C24", "The client reports the true outcome of every request",
     "Submitting, reporting, listing, scaling, adapting and stopping each send one request, to the addressed cluster of the given gateway and with the given content. A 401 answer is answered once, by repeating the request with the authenticator's credentials. The call succeeds exactly if the final answer's status is below 400; otherwise it raises an error of the matching kind which, for 404, 409, 422 and 500, carries the server's reason; a partly accepted scaling is told by a warning. Waiting for a cluster returns only a running cluster, raises if the cluster failed, stopped or is unknown, and otherwise keeps waiting. A cluster object connects to its own cluster through the proxy, over TLS trusting only that cluster's certificate. When closed, or when starting it fails, it asks once for the shutdown of its cluster (if it has a name) exactly if told to by shutdown or else shutdown_on_close (by default only for clusters it started itself).",
     ["inputs", "histories"], "every server answer and every sequence of statuses",
     "Tests use a well-behaved server.",
     [C + "client.py", C + "auth.py", C + "comm.py"],
     [("Gateway._request, _wait_for_start, _scale_cluster, _adapt_cluster", C + "client.py"), ("GatewayCluster._start_internal, _stop_internal", C + "client.py"), ("GatewaySecurity, GatewayConnector", C + "client.py and comm.py")],
     [], ["return values and exceptions of the client API", "requests sent"])

prop("C25", "Pod templates merge administrator overrides without losing settings",
     "Merging configuration into a pod template yields, for every pair of nested documents, exactly the recursive merge: objects are merged key by key, lists in the override are appended to the template's, any other override value wins, everything else is kept, and neither input is modified. The generated scheduler and worker pods carry the configured image, commands, environment, resource requests and limits, labels identifying their cluster and component, mount that cluster's credentials, and have the administrator's pod and container overrides merged in.",
     ["inputs", "configurations"], "every pair of nested documents and every configuration",
     "Tests merge a few documents.",
     [S + "backends/kubernetes/utils.py", S + "backends/kubernetes/controller.py"],
     [("merge_json_objects", S + "backends/kubernetes/utils.py"), ("make_pod", S + "backends/kubernetes/controller.py")],
     [], ["pod specifications"])

prop("C26", "A scheduler message is delivered, or the cluster fails and the caller is told",
     "A scale or adapt message is sent only to a running cluster, at that cluster's own API address with its own token. Sending is attempted at most the configured number of times with growing, capped delays; after the first success nothing more is sent. If every attempt fails the cluster is told to stop as failed and the caller gets an error, and a success is never reported otherwise.",
     ["fault_sequences", "inputs"], "every sequence of failures of the attempts and every retry limit",
     "Tests cover one failing scheduler with the default limit.",
     [S + "backends/base.py"],
     [("forward_message_to_scheduler", S + "backends/base.py")],
     [], ["requests sent to the scheduler", "stop_cluster calls"])


DEFAULT_TECH = "deductive verification: contracts on the real functions, weakest-precondition-style symbolic execution of the parsed source, obligations discharged by z3 (cvc5 cross-check); concrete replay of counterexamples"
DEFAULT_NOTE = "All obligations generated from the current source of the functions under contract are discharged for all inputs and iterations; external libraries are modelled by assumed contracts listed in the evidence. Concrete replay on the real code runs alongside."


def main():
    assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if p["_na"] is None and os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                           "technique": p["_tech"] or DEFAULT_TECH, "level": "proof", "level_note": p["_note"] or DEFAULT_NOTE})
        else:
            na.append({"property": i, "reason": p["_na"] or "contracts for this property are not written yet"})
    m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, cvc5\" && mkdir -p evidence replay", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
