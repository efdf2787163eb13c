"""Edits that change no behaviour, on which the checks have to stay quiet.
    python3 tools/refactor.py [name ...]
Each is applied to a scratch copy of the repository and the checks of the
properties it is near to are run on it."""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

S, P = "dask-gateway-server/dask_gateway_server/", "dask-gateway/dask_gateway/"
DB, KC, KU, KB = S + "backends/db_base.py", S + "backends/kubernetes/controller.py", S + "backends/kubernetes/utils.py", S + "backends/kubernetes/backend.py"
EDITS = {}


def edit(name, props, *subs):
    EDITS[name] = (props.split(), subs)


edit("scale-helper", "C01 C02 C04", (S + "routes.py", '''    cluster = await backend.get_cluster(cluster_name)
    if cluster is None:
        raise web.HTTPNotFound(reason=f"Cluster {cluster_name} not found")
    if not user.has_permissions(cluster):
        raise web.HTTPForbidden(
            reason=f"User {user.name} lacks permissions to view cluster {cluster_name}"
        )

    msg = await request.json()
    count''', '''    cluster = await _get_users_cluster(backend, user, cluster_name)

    msg = await request.json()
    count'''), (S + "routes.py", '''@default_routes.post("/api/v1/clusters/{cluster_name}/scale")''', '''async def _get_users_cluster(backend, user, cluster_name):
    """The cluster of this name, if the user may access it"""
    cluster = await backend.get_cluster(cluster_name)
    if cluster is None:
        raise web.HTTPNotFound(reason=f"Cluster {cluster_name} not found")
    if not user.has_permissions(cluster):
        raise web.HTTPForbidden(
            reason=f"User {user.name} lacks permissions to view cluster {cluster_name}"
        )
    return cluster


@default_routes.post("/api/v1/clusters/{cluster_name}/scale")'''))
edit("adapt-minmax", "C04 C01", (S + "routes.py", '''        if maximum > max_workers or minimum > max_workers:
            orig_max = maximum
            orig_min = minimum
            maximum = min(max_workers, maximum)
            minimum = min(max_workers, minimum)
''', '''        orig_max, orig_min = maximum, minimum
        maximum, minimum = min(max_workers, maximum), min(max_workers, minimum)
        if (orig_max, orig_min) != (maximum, minimum):
'''))
edit("auth-cookie", "C03", (S + "auth.py", '''        cookie = request.cookies.get(self.cookie_name)
        if cookie is not None:
            user = self.cache.get(cookie)
            if user is not None:
                request["user"] = user
                return await handler(request)
''', '''        user = self._user_from_cookie(request)
        if user is not None:
            request["user"] = user
            return await handler(request)
'''), (S + "auth.py", '''    async def authenticate_and_handle(self''', '''    def _user_from_cookie(self, request):
        if self.cookie_name not in request.cookies:
            return None
        return self.cache.get(request.cookies[self.cookie_name])

    async def authenticate_and_handle(self'''))
edit("auth-tuple", "C03", (S + "auth.py", '''        if type(user) is tuple:
            user, context = user
        else:
            context = None
''', '''        context = None
        if isinstance(user, tuple):
            user, context = user
'''))
edit("heartbeat-partition", "C04 C07 C09 C06", (DB, '''        n_pending = len(created_workers) + len(submitted_workers)
        n_to_stop = len(active_workers) + n_pending - count
        if n_to_stop > 0:
            for w in islice(chain(created_workers, submitted_workers), n_to_stop):
                target_updates.append((w, {"target": JobStatus.STOPPED}))
''', '''        pending = created_workers + submitted_workers
        n_to_stop = max(0, len(active_workers) + len(pending) - count)
        target_updates.extend(
            (w, {"target": JobStatus.STOPPED}) for w in pending[:n_to_stop]
        )
'''))
edit("heartbeat-limit", "C04 C09", (DB, '''        if count != cluster.count:
            cluster_update["count"] = count
''', '''        if cluster.count != count:
            cluster_update.update(count=count)
'''))
edit("timeouts-split", "C09 C08", (DB, '''                else:
                    for w in cluster.workers.values():
                        # Check if submitted workers have timed out
                        if (
                            w.status == JobStatus.SUBMITTED
                            and w.target == JobStatus.RUNNING
                            and w.start_time < worker_start_cutoff
                        ):
                            self.log.info("Worker %s startup timed out", w.name)
                            worker_updates.append((w, {"target": JobStatus.FAILED}))
''', '''                    continue
                timed_out = [
                    w
                    for w in cluster.workers.values()
                    if w.status == JobStatus.SUBMITTED
                    and w.target == JobStatus.RUNNING
                    and w.start_time < worker_start_cutoff
                ]
                for w in timed_out:
                    self.log.info("Worker %s startup timed out", w.name)
                    worker_updates.append((w, {"target": JobStatus.FAILED}))
'''))
edit("reconcile-flat", "C06 C07 C08", (DB, '''        if cluster.target in (JobStatus.STOPPED, JobStatus.FAILED):
            if cluster.status == JobStatus.CLOSING:
                if self.is_cluster_ready_to_close(cluster):
                    await self._cluster_to_stopped(cluster)
            else:
                await self._cluster_to_closing(cluster)
            return
''', '''        if cluster.target in (JobStatus.STOPPED, JobStatus.FAILED):
            if cluster.status != JobStatus.CLOSING:
                await self._cluster_to_closing(cluster)
                return
            if not self.is_cluster_ready_to_close(cluster):
                return
            await self._cluster_to_stopped(cluster)
            return
'''))
edit("remove-routes-helper", "C07 C06 C10", (DB, '''            await self.proxy.remove_route(kind="PATH", path=f"/clusters/{cluster.name}")
            await self.proxy.remove_route(kind="SNI", sni=cluster.name)
''', '''            await self._remove_routes(cluster)
'''), (DB, '''    async def _cluster_to_running(self''', '''    async def _remove_routes(self, cluster):
        path = "/clusters/" + cluster.name
        await self.proxy.remove_route(kind="PATH", path=path)
        await self.proxy.remove_route(kind="SNI", sni=cluster.name)

    async def _cluster_to_running(self'''))
edit("submit-worker-status", "C08 C07 C06", (DB, '''            # The worker may already have been reported as running
            status = max(worker.status, JobStatus.SUBMITTED)
            self.db.update_worker(worker, status=status)
''', '''            # The worker may already have been reported as running
            if worker.status < JobStatus.SUBMITTED:
                self.db.update_worker(worker, status=JobStatus.SUBMITTED)
'''))
edit("env-items", "C20", (DB, '''        env = self.get_env(cluster)
        tls_cert_path, tls_key_path = self.get_tls_paths(cluster)
        env.update(
            {
                "DASK_DISTRIBUTED__COMM__TLS__CA_FILE": tls_cert_path,
                "DASK_DISTRIBUTED__COMM__TLS__WORKER__KEY": tls_key_path,
                "DASK_DISTRIBUTED__COMM__TLS__WORKER__CERT": tls_cert_path,
            }
        )
        return env
''', '''        return {**self.get_env(cluster), **self._tls_env(cluster, "WORKER")}

    def _tls_env(self, cluster, role):
        cert, key = self.get_tls_paths(cluster)
        prefix = "DASK_DISTRIBUTED__COMM__TLS__"
        return {
            prefix + "CA_FILE": cert,
            f"{prefix}{role}__KEY": key,
            f"{prefix}{role}__CERT": cert,
        }
'''))
edit("workqueue-get", "C12", (S + "workqueue.py", '''    def _put(self, item):
        if item not in self._dirty:
            self._dirty.add(item)
            if item not in self._processing:
                self._queue.append(item)
''', '''    def _put(self, item):
        if item in self._dirty:
            return
        self._dirty.add(item)
        if item not in self._processing:
            self._queue.append(item)
'''), (S + "workqueue.py", '''        while self._waiting:
            waiter = self._waiting.popleft()
            if not waiter.done():
                waiter.set_result(None)
                break

''', '''        woken = False
        while self._waiting and not woken:
            waiter = self._waiting.popleft()
            if not waiter.done():
                waiter.set_result(None)
                woken = True

'''))
edit("ratelimiter", "C13", (S + "utils.py", '''        tokens -= 1
        if tokens < 0:
            delay = -tokens / self.rate
        else:
            delay = 0

        self._tokens = tokens
''', '''        tokens = tokens - 1
        delay = max(0, -tokens) / self.rate

        self._tokens = tokens
'''))
edit("k8s-should-trigger", "C17", (KC, '''        if pod_name not in self.all_pods:
            self.creates -= 1
            self.all_pods.add(pod_name)

        for n in''', '''        is_new = pod_name not in self.all_pods
        self.all_pods.add(pod_name)
        if is_new:
            self.creates -= 1

        for n in'''))
edit("k8s-batch", "C17", (KC, '''            batch = [
                self.create_pod(namespace, pod, info)
                for _ in range(min(batch_size, remaining))
            ]
            res = await asyncio.gather(*batch, return_exceptions=True)
            remaining -= len(batch)
''', '''            n = min(batch_size, remaining)
            batch = [self.create_pod(namespace, pod, info) for _ in range(n)]
            remaining -= n
            res = await asyncio.gather(*batch, return_exceptions=True)
'''))
edit("k8s-scale-down", "C17", (KC, '''        if info.pending:
            # ``delta`` is the (non-positive) number of missing workers
            pending = list(info.pending)[:-delta]
        else:
            pending = []
''', '''        excess = -delta
        pending = []
        for pod_name in info.pending:
            if len(pending) >= excess:
                break
            pending.append(pod_name)
'''))
edit("k8s-on-pod", "C17 C18", (KC, '''            info = self.cluster_info[cluster_key]
            info.on_worker_deleted(pod["metadata"]["name"])
            if info.should_trigger() and not cluster_stopping:
                self.queue.put(cluster_key)
''', '''            self._on_worker_deleted(cluster_key, pod["metadata"]["name"])

    def _on_worker_deleted(self, cluster_key, pod_name):
        info = self.cluster_info[cluster_key]
        info.on_worker_deleted(pod_name)
        if cluster_key in self.stopped_clusters:
            return
        if info.should_trigger():
            self.queue.put(cluster_key)
'''))
edit("k8s-cleanup-loop", "C18", (KC, '''        sched_pod = status.get("schedulerPod")
        if sched_pod:
            try:
                await self.core_client.delete_namespaced_pod(sched_pod, namespace)
            except ApiException as exc:
                if exc.status != 404:
                    raise
        secret = status.get("credentials")
        if secret:
            try:
                await self.core_client.delete_namespaced_secret(secret, namespace)
            except ApiException as exc:
                if exc.status != 404:
                    raise
''', '''        for key, method in [
            ("schedulerPod", self.core_client.delete_namespaced_pod),
            ("credentials", self.core_client.delete_namespaced_secret),
        ]:
            name = status.get(key)
            if not name:
                continue
            try:
                await method(name, namespace)
            except ApiException as exc:
                if exc.status != 404:
                    raise
'''))
edit("k8s-pending-service", "C18", (KC, '''            service_name = status.get("service")
            if not status.get("service"):
                service_name = await self.create_service_if_not_exists(
                    cluster, sched_pod
                )
                status["service"] = service_name
''', '''            if not status.get("service"):
                status["service"] = await self.create_service_if_not_exists(
                    cluster, sched_pod
                )
            service_name = status["service"]
'''))
edit("k8s-fail-helper", "C18", (KC, '''                "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
            )
            await self.cleanup_cluster_resources(status, namespace)
            status["phase"] = "Failed"
            status["completionTime"] = k8s_timestamp()

        return status, False''', '''                "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
            )
            await self.fail_cluster(status, namespace)

        return status, False

    async def fail_cluster(self, status, namespace):
        await self.cleanup_cluster_resources(status, namespace)
        status.update(phase="Failed", completionTime=k8s_timestamp())'''))
edit("informer-notify", "C19", (KU, '''            old = self.cache.get(key)
            self.cache[key] = obj
            try:
                self.on_update(obj, old=old)
            except Exception:
                self.log.warning("Error in %s informer", self.name, exc_info=True)

    def handle(''', '''            self._updated(key, obj)

    def _updated(self, key, obj):
        old, self.cache[key] = self.cache.get(key), obj
        try:
            self.on_update(obj, old=old)
        except Exception:
            self.log.warning("Error in %s informer", self.name, exc_info=True)

    def handle('''))
edit("informer-deleted", "C19", (KU, '''        if self.cache:
            deleted = set(self.cache).difference(obj_map)
        else:
            deleted = ()
''', '''        deleted = [key for key in self.cache if key not in obj_map]
'''))
edit("sync-index", "C19", (KB, '''                user = self.username_to_clusters.get(cluster.username)
                if user is not None:
                    user.pop(cluster.name, None)
                    if not user:
                        self.username_to_clusters.pop(cluster.username, None)
''', '''                self._unindex(cluster)
'''), (KB, '''    async def sync_cluster(self''', '''    def _unindex(self, cluster):
        user = self.username_to_clusters.get(cluster.username)
        if user is None:
            return
        user.pop(cluster.name, None)
        if not user:
            del self.username_to_clusters[cluster.username]

    async def sync_cluster(self'''))
edit("merge-get", "C25 C20", (KU, '''            if key in a:
                a_val = a[key]
                if isinstance(a_val, dict) and isinstance(b_val, dict):
                    a[key] = merge_json_objects(a_val, b_val)
                elif isinstance(a_val, list) and isinstance(b_val, list):
                    a[key] = a_val + b_val
                else:
                    a[key] = b_val
            else:
                a[key] = b_val
''', '''            a_val = a.get(key)
            if isinstance(a_val, dict) and isinstance(b_val, dict):
                b_val = merge_json_objects(a_val, b_val)
            elif isinstance(a_val, list) and isinstance(b_val, list):
                b_val = [*a_val, *b_val]
            a[key] = b_val
'''))
edit("jobqueue-check", "C22", (S + "backends/jobqueue/base.py", '''        id_map = {}
        for x in objs:
            job_id = x.state.get("job_id")
            if job_id is not None:
                id_map[x.name] = job_id
        states = await self.check_jobs(list(id_map.values()))
        return [states.get(id_map.get(x.name), False) for x in objs]
''', '''        job_ids = [x.state.get("job_id") for x in objs]
        states = await self.check_jobs([i for i in job_ids if i is not None])
        return [i is not None and states.get(i, False) for i in job_ids]
'''))
edit("pbs-states", "C22", (S + "backends/jobqueue/pbs.py", '''        lines = stdout.splitlines()[2:]

        states = {}

        for l in lines:
            parts = l.split()
            job_id = parts[0]
            status = parts[4]
            states[job_id] = status in ("R", "Q", "H")

        return states
''', '''        rows = [line.split() for line in stdout.splitlines()[2:]]
        return {row[0]: row[4] in {"R", "Q", "H"} for row in rows}
'''))
edit("yarn-check", "C22", (S + "backends/yarn.py", '''                active = {c.id for c in containers}
                results.update(
                    {
                        w.name: w.state.get("container_id") in active
                        for w in cluster_workers
                    }
                )
''', '''                active = [c.id for c in containers]
                for w in cluster_workers:
                    results[w.name] = w.state.get("container_id") in active
'''))
edit("local-stop", "C21", (S + "backends/local.py", '''        if is_running(pid):
            # all attempts failed, zombie process
            self.log.warn("Failed to stop process %d", pid)
''', '''        if not is_running(pid):
            return
        # all attempts failed, zombie process
        self.log.warning("Failed to stop process %d", pid)
'''), (S + "backends/local.py", '''        if os.path.exists(workdir):
            try:
                shutil.rmtree(workdir)
                self.log.debug("Working directory %s removed", workdir)
            except Exception:  # pragma: nocover
                self.log.warn("Failed to remove working directory %r", workdir)
''', '''        if not os.path.exists(workdir):
            return
        try:
            shutil.rmtree(workdir)
        except Exception:  # pragma: nocover
            self.log.warning("Failed to remove working directory %r", workdir)
        else:
            self.log.debug("Working directory %s removed", workdir)
'''))
edit("sched-adapt", "C23", (P + "scheduler_preload.py", '''                if self.minimum is not None:
                    target = max(self.minimum, target)
                if self.maximum is not None:
                    target = min(self.maximum, target)

                window''', '''                target = self._clamp(target)

                window'''), (P + "scheduler_preload.py", '''    async def adapt_loop(self''', '''    def _clamp(self, target):
        if self.minimum is not None and target < self.minimum:
            target = self.minimum
        if self.maximum is not None and target > self.maximum:
            target = self.maximum
        return target

    async def adapt_loop(self'''))
edit("sched-heartbeat", "C23", (P + "scheduler_preload.py", '''            active_workers = list(self.active_workers.difference(closing_workers))
        else:
            closing_workers = []
            active_workers = list(self.active_workers)
''', '''        else:
            closing_workers = []
        active_workers = [w for w in self.active_workers if w not in closing_workers]
'''))
edit("client-request", "C24", (P + "client.py", '''            if resp.status in {404, 422}:
                raise ValueError(msg)
            elif resp.status == 409:
                raise GatewayClusterError(msg)
            elif resp.status == 500:
                raise GatewayServerError(msg)
            else:
                resp.raise_for_status()
        else:
            return resp
''', '''            error = {
                404: ValueError,
                422: ValueError,
                409: GatewayClusterError,
                500: GatewayServerError,
            }.get(resp.status)
            if error is not None:
                raise error(msg)
            resp.raise_for_status()
        return resp
'''))
edit("client-scale", "C24", (P + "client.py", '''        resp = await self._request("POST", url, json={"count": n})
        try:
            msg = await resp.json()
        except Exception:
            msg = {}
        if not msg.get("ok", True) and msg.get("msg"):
            warnings.warn(GatewayWarning(msg["msg"]))
''', '''        resp = await self._request("POST", url, json={"count": n})
        await self._warn_if_partial(resp)

    async def _warn_if_partial(self, resp):
        try:
            msg = await resp.json()
        except Exception:
            return
        if msg.get("ok", True):
            return
        if msg.get("msg"):
            warnings.warn(GatewayWarning(msg["msg"]))
'''))
edit("options-validate", "C05", (S + "options.py", '''        return copy.deepcopy(self.default)''', '''        default = self.default
        return copy.deepcopy(default)'''))

GO = "dask-gateway-server/dask-gateway-proxy/"
GR, GM, GS = GO + "pkg/router/router.go", GO + "cmd/dask-gateway-proxy/main.go", GO + "pkg/sni/sni.go"
edit("go-segment", "C15", (GR, """	end := strings.IndexRune(path[start:], '/')
	if end == -1 {
		return path[start:], -1
	}
	return path[start : start+end], start + end + 1""", """	rest := path[start:]
	if end := strings.IndexByte(rest, '/'); end >= 0 {
		return rest[:end], start + end + 1
	}
	return rest, -1"""))
edit("go-hasmatch", "C15", (GR, """	if router.url != nil {
		return true
	}
	path, _ = normalizePath(path)
	for part, i := getSegment(path, 0); ; part, i = getSegment(path, i) {
		router = router.branches[part]
		if router == nil {
			break
		}
		if router.url != nil {
			return true
		}
		if i == -1 {
			break
		}
	}
	return false""", """	target, _ := router.Match(path)
	return target != nil"""))
edit("go-match", "C15", (GR, """		if i == -1 {
			break
		}
		n = i
	}
	if out == nil {
		return nil, ""
	}
	return out, path[offset+offset2:]""", """		if n = i; n < 0 {
			break
		}
	}
	if out != nil {
		return out, path[offset+offset2:]
	}
	return nil, \"\""""))
edit("go-put", "C15", (GR, """		child, _ := node.branches[part]
		if child == nil {
			child = NewRouter()
			if node.branches == nil {
				node.branches = make(map[string]*Router)
			}
			node.branches[part] = child
		}
		node = child
""", """		next, ok := node.branches[part]
		if !ok {
			next = NewRouter()
			if node.branches == nil {
				node.branches = make(map[string]*Router)
			}
			node.branches[part] = next
		}
		node = next
"""))
edit("go-validate", "C16", (GM, """	if full {
		if r.Target == "" {
			return errMissingTarget
		}
		if r.Kind == "SNI" {""", """	if !full {
		return nil
	}
	{
		if len(r.Target) == 0 {
			return errMissingTarget
		}
		if r.Kind == "SNI" {"""))
edit("go-lookup", "C16", (GM, """	p.routesLock.RLock()
	outAddr := p.sniRoutes[sni]
	p.routesLock.RUnlock()

	if outAddr == "" {""", """	outAddr, ok := p.lookup(sni)
	if !ok {"""), (GM, """func (p *Proxy) runTCP(""", """func (p *Proxy) lookup(name string) (string, bool) {
	p.routesLock.RLock()
	defer p.routesLock.RUnlock()
	addr := p.sniRoutes[name]
	return addr, addr != ""
}

func (p *Proxy) runTCP("""))
edit("go-update", "C16", (GM, """	for _, route := range routes {
		p.putRoute(&route)
	}""", """	for i := range routes {
		p.putRoute(&routes[i])
	}"""))
edit("go-peeked", "C16", (GS, """		c.peeked = c.peeked[n:]
		if len(c.peeked) == 0 {
			c.peeked = nil
		}
		return n, nil""", """		c.peeked = c.peeked[n:]
		return n, nil"""))
edit("go-follow", "C16", (GM, """			for it.Next() {
				events := it.Events()
				if len(events) > 0 {
					p.UpdateFromEvents(events)
					last_id = events[len(events)-1].Id
				}
			}
""", """			last_id = p.follow(it, last_id)
"""), (GM, """func (p *Proxy) runTCP(""", """func (p *Proxy) follow(it *evIter, last_id uint64) uint64 {
	for it.Next() {
		if events := it.Events(); len(events) != 0 {
			p.UpdateFromEvents(events)
			last_id = events[len(events)-1].Id
		}
	}
	return last_id
}

func (p *Proxy) runTCP("""))
edit("go-forward", "C16", (GM, """		if forwarder != nil {
			forwarder.Forward(pInConn)
			return
		} else {
			p.logger.Debug("Invalid connection attempt, closing")
			inConn.Close()
			return
		}""", """		if forwarder == nil {
			p.logger.Debug("Invalid connection attempt, closing")
			inConn.Close()
			return
		}
		forwarder.Forward(pInConn)
		return"""))
edit("go-sni", "C16", (GS, """	recLen := int(hdr[3])<<8 | int(hdr[4])
	helloBytes, err := br.Peek(headerLen + recLen)""", """	helloBytes, err := br.Peek(headerLen + int(hdr[3])*256 + int(hdr[4]))"""))


def one(name):
    props, subs = EDITS[name]
    w = f"/tmp/rf.{os.getpid()}.{name}"
    shutil.copytree("/repo", w, symlinks=True)
    shutil.copytree("/verif", w + ".v", symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded"))
    out = []
    try:
        for f, old, new in subs:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                return f"{name}: the text is found {s.count(old)} times in {f}\n"
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        for p in props:
            t = time.time()
            r = subprocess.run(["python3-vt", "check.py", p], cwd=w + ".v", env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            open(f"/tmp/rflog.{name}.{p}", "w").write(r.stdout + r.stderr)
            bad = [x[:150] for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "failed"))]
            und = sum(x.startswith("undecided") for x in r.stdout.splitlines())
            out.append(f"{name} {p} rc={r.returncode} {time.time() - t:.0f}s undecided={und} {' | '.join(bad[:3])}\n")
    finally:
        shutil.rmtree(w)
        shutil.rmtree(w + ".v")
    return "".join(out)


if __name__ == "__main__":
    names = sys.argv[1:] or list(EDITS)
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, names):
            print(r, end="", flush=True)
