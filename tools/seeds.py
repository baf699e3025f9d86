"""Generates /verif/seeded/*: each entry is (id, property, file, [(old, new)...], needs, breaks, demo)."""
SEEDS = []
def S(id, prop, file, edits, needs, breaks, demo): SEEDS.append((id, prop, file, edits, needs, breaks, demo))

PRE = "import numpy as np, sys, warnings\nwarnings.filterwarnings('ignore')\n"

S("s01-fullcov-transpose", "C01", "scaler.py",
  [("return np.array([np.dot(self.L_inv, xi - self.mu) for xi in x])", "return np.dot(x - self.mu, self.L_inv)")],
  "full-covariance rescaling (diagonal=False) of correlated data",
  "the vectorised product misses a transpose: forward then inverse no longer returns the point",
  """from pocomc.scaler import Reparameterize
rng=np.random.default_rng(0)
x=rng.normal(size=(200,3))@rng.normal(size=(3,3))
s=Reparameterize(3,np.tile([-np.inf,np.inf],(3,1)),diagonal=False); s.fit(x)
y,_=s.inverse(s.forward(x))
sys.exit(0 if np.allclose(x,y) else 1)""")

S("s02-logit-jacobian", "C02", "scaler.py",
  [("np.log(p) + np.log(1.0 - p)", "-u[:, self.mask_both] - 2.0 * np.logaddexp(0, u[:, self.mask_both])")],
  "logit transform with doubly bounded parameters, at u != 0",
  "the rewritten log-Jacobian has the sign of u mixed up; correct only at u=0",
  """from pocomc.scaler import Reparameterize
s=Reparameterize(1,np.array([[0.,2.]]),transform='logit',scale=False)
u=np.array([[-1.3],[0.4],[2.0]]); h=1e-6
x,J=s.inverse(u); d=(s.inverse(u+h)[0]-s.inverse(u-h)[0])[:,0]/(2*h)
sys.exit(0 if np.allclose(J,np.log(d),atol=1e-4) else 1)""")

S("s03-periodic-modulo", "C03", "scaler.py",
  [("                    while x[j, i] > self.high[i]:\n                        x[j, i] = self.low[i] + x[j, i] - self.high[i]\n                    while x[j, i] < self.low[i]:\n                        x[j, i] = self.high[i] + x[j, i] - self.low[i]",
    "                    x[j, i] = self.low[i] + (x[j, i] - self.low[i]) % (self.high[i] - self.low[i])")],
  "a periodic coordinate exactly on its upper bound", "a value already in range (the upper bound) is moved to the lower bound",
  """from pocomc.scaler import Reparameterize
s=Reparameterize(2,np.array([[0.,1.],[-2.,3.]]),periodic=[1])
x=np.array([[0.5,3.0],[0.2,1.0]])
y=s.apply_boundary_conditions_x(x)
sys.exit(0 if np.array_equal(x,y) else 1)""")

S("s04-nan-accepted", "C04", "input_validation.py",
  [("        condition = (left <= x) & (x <= right)", "        condition = ~((x < left) | (x > right))")],
  "a NaN coordinate in the data", "NaN passes the within-bounds check",
  """from pocomc.scaler import Reparameterize
s=Reparameterize(2,np.array([[0.,1.],[0.,1.]]))
try:
    s.fit(np.array([[0.5,0.5],[np.nan,0.2],[0.3,0.4]])); sys.exit(1)
except ValueError: sys.exit(0)""")

S("s05-rvs-reshape", "C05", "prior.py",
  [("return np.transpose(samples)", "return np.array(samples).reshape(size, -1)")],
  "at least two different marginals and more than one draw", "prior draws are scrambled across coordinates",
  """from pocomc import Prior
from scipy.stats import uniform
p=Prior([uniform(0,1),uniform(10,1),uniform(20,1)])
np.random.seed(0); s=p.rvs(50)
ok=s.shape==(50,3) and np.all(np.isfinite(p.logpdf(s)))
sys.exit(0 if ok else 1)""")

S("s06-nan-accept-rwm", "C06", "mcmc.py",
  [("        alpha[np.isnan(alpha)] = 0.0\n\n        # Metropolis criterion\n        u_rand = np.random.rand(n_walkers)\n        mask = u_rand < alpha\n\n        # Accept new points\n        u[mask] = u_prime[mask]\n        x[mask] = x_prime[mask]\n        logdetj[mask] = logdetj_prime[mask]\n        logl[mask] = logl_prime[mask]\n        logp[mask] = logp_prime[mask]\n        if have_blobs:\n            blobs[mask] = blobs_prime[mask]\n\n        # Adapt scale parameter using diminishing adaptation\n        sigma = np.abs(sigma + 1",
    "@@RWM@@")], "a likelihood that is NaN at a proposed point, rwm kernel", "proposals with an undefined ratio are accepted", "")
S("s07-stale-flow-jacobian", "C06", "mcmc.py", [("@@PRWM@@", "")],
  "preconditioned random walk, at least two steps with a non-volume-preserving flow",
  "log|J| of the flow at the current point is not refreshed after an acceptance, so later ratios use a stale factor", "")
S("s08-logl-inplace", "C07", "mcmc.py", [("@@PCN_LOGL@@", "")],
  "calling the pcn kernel with a state the caller keeps using", "the kernel overwrites the caller's log-likelihoods", "")
S("s09-calls-before-prior", "C08", "mcmc.py", [("@@PPCN_CALLS@@", "")],
  "a prior with zero density inside the box and the preconditioned pCN kernel",
  "points that were never evaluated are counted as likelihood calls", "")

S("s10-mean-exp", "C09", "particles.py",
  [("B = np.logaddexp.reduce(b, axis=0) - np.log(len(beta))", "B = np.log(np.mean(np.exp(b), axis=0))")],
  "log-likelihoods of large magnitude (|logL| > 745)", "the mixture denominator over/underflows to inf/-inf/NaN",
  """from pocomc.particles import Particles
p=Particles(4,2)
for t,(b,z) in enumerate([(0.0,0.0),(0.5,400.0)]):
    p.update(dict(logl=np.array([3000.,3001.,2999.,3002.]),beta=b,logz=z))
w,z=p.compute_logw_and_logz(1.0)
sys.exit(0 if np.all(np.isfinite(w)) and np.isfinite(z) else 1)""")

S("s11-bisect-tolerance", "C10", "sampler.py",
  [("if np.abs(ess_est - self.n_effective) < 0.01 * self.n_effective or beta == 1.0:", "if np.abs(ess_est - self.n_effective) < 0.01 * self.n_effective or beta_max - beta_min < 1e-4:")],
  "a very informative likelihood (first temperature below 1e-4)", "bisection stops with a sample size far from the target", "@@C10@@")
S("s12-stop-early", "C11", "sampler.py",
  [("return 1.0 - current_particles.get(\"beta\") >= 1e-4 or ess < self.n_total", "return 1.0 - current_particles.get(\"beta\") >= 1e-2 or ess < self.n_total")],
  "an iteration whose inverse temperature lands in (0.99, 0.9999)", "the run stops before reaching the posterior", "@@C11@@")
S("s13-compute-ess-overflow", "C12", "tools.py",
  [("    weights = np.exp(logw_normed) / np.sum(np.exp(logw_normed))", "    weights = np.exp(logw) / np.sum(np.exp(logw))")],
  "log-weights with a large common offset", "the effective sample size depends on a constant added to the log-weights",
  """from pocomc.tools import compute_ess
lw=np.array([0.,-1.,-2.])
sys.exit(0 if np.isclose(compute_ess(lw),compute_ess(lw+2000.)) and np.isclose(compute_ess(lw),compute_ess(lw-2000.)) else 1)""")
S("s14-trim-order", "C13", "tools.py",
  [("        mask = weights >= threshold\n", "        mask = np.argsort(weights)[::-1][:np.sum(weights >= threshold)]\n")],
  "weights that are not sorted in decreasing order", "the kept samples come back sorted by weight instead of in their original order",
  """from pocomc.tools import trim_weights
w=np.array([0.1,0.4,0.2,0.3]); idx,ww=trim_weights(np.arange(4),w.copy(),ess=0.99)
sys.exit(0 if np.all(np.diff(idx)>0) else 1)""")
S("s15-stratified", "C14", "tools.py",
  [("positions = (np.random.random() + np.arange(size)) / size", "positions = (np.random.random(size) + np.arange(size)) / size")],
  "weights for which size*w is not an integer, over several seeds", "stratified instead of systematic: counts can miss floor/ceil",
  """from pocomc.tools import systematic_resample
w=np.array([0.15,0.31,0.54]); ok=True
for s in range(200):
    c=np.bincount(systematic_resample(10,w.copy(),random_state=s),minlength=3)
    ok&=bool(np.all((c>=np.floor(10*w-1e-9))&(c<=np.ceil(10*w+1e-9))))
sys.exit(0 if ok else 1)""")
S("s16-resample-size", "C15", "sampler.py",
  [("idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)", "idx_resampled = np.random.choice(np.arange(len(weights)), size=self.particles.n_particles, replace=True, p=weights)")],
  "n_active omitted (derived from n_effective), multinomial resampling", "a single particle instead of n_active results", "@@C15@@")
S("s17-logw-not-trimmed", "C16", "sampler.py",
  [("            logw = logw[idx]\n", "")],
  "posterior(return_logw=True) when trimming drops samples", "log-weights are longer than, and not aligned with, the samples", "@@C16@@")
S("s18-bootstrap-perm", "C17", "sampler.py", [("@@BOOT@@", "")],
  "looking at the evidence error", "bootstrap without replacement: the reported error is always zero", "@@C17@@")
S("s19-bytes-blobs", "C18", "sampler.py", [("if dt.kind in \"US\":", "if dt.kind in \"U\":")],
  "bytes blobs of different lengths without a declared dtype", "blobs longer than the first are truncated", "@@C18@@")
S("s20-close-last-worker", "C19", "parallel.py",
  [("        for worker in self.workers:\n", "        for worker in range(1, self.size):\n")],
  "closing the pool", "the last worker is never told to quit", "@@C19@@")
S("s21-no-flush", "C20", "sampler.py", [("            f.flush()\n", "")],
  "a crash (power loss) right after the rename", "fsync runs before the buffered bytes reached the file: the tail of the checkpoint is not forced to disk", "@@C20@@")
S("s22-drop-prior-samples", "C21", "sampler.py", [("            del state['pbar']  # Cannot be pickled\n", "            del state['pbar']  # Cannot be pickled\n            state['prior_samples'] = None  # large\n")],
  "resuming from a checkpoint", "prior samples are redrawn and the reparameterisation refitted on resume, so stored coordinates no longer match", "@@C21@@")
S("s23-skip-none", "C22", "particles.py",
  [("                self.past.get(key).append(value)", "                if value is not None and np.size(value):\n                    self.past.get(key).append(value)")],
  "a quantity recorded as None (no blobs)", "not every iteration adds a record for every quantity",
  """from pocomc.particles import Particles
p=Particles(2,1)
for t in range(3): p.update(dict(u=np.zeros((2,1)),blobs=None,logl=np.zeros(2),beta=0.,logz=0.))
sys.exit(0 if len(p.past['blobs'])==3 else 1)""")
S("s24-seed-zero", "C23", "sampler.py",
  [("        if random_state is not None:\n            np.random.seed(random_state)", "        if random_state:\n            np.random.seed(random_state)")],
  "random_state=0", "seed zero is treated as no seed", "@@C23@@")
S("s25-tfit-unweighted", "C24", "geometry.py", [("fit_mvstud(theta_resampled)", "fit_mvstud(theta)")],
  "strongly non-uniform weights", "the Student-t fit ignores the weights",
  """from pocomc.geometry import Geometry
np.random.seed(0); th=np.concatenate([np.random.normal(0,1,(100,2)),np.random.normal(50,1,(100,2))]); w=np.concatenate([np.full(100,1e-12),np.ones(100)]); w/=w.sum()
g=Geometry(); g.fit(th,weights=w)
sys.exit(0 if np.all(np.abs(g.t_mean-50)<2) and np.all(np.diag(g.t_cov)<10) else 1)""")
S("s26-wrapper-sign", "C25", "tools.py", [("logdetj = - torch_to_numpy(logdetj)", "logdetj = torch_to_numpy(logdetj)")],
  "any flow that is not volume preserving", "the two directions report log-determinants of opposite sign", """import torch
from pocomc.flow import Flow
from pocomc.tools import flow_numpy_wrapper
torch.manual_seed(0); f=flow_numpy_wrapper(Flow(2,'maf3')); u=np.random.default_rng(0).normal(size=(20,2))
th,l1=f.forward(u); v,l2=f.inverse(th)
sys.exit(0 if np.allclose(l1,l2,atol=1e-3) and np.max(np.abs(l1))>1e-4 else 1)""")
S("s27-best-model-alias", "C26", "flow.py", [("\n                best_model = copy.deepcopy(self.flow.state_dict())", "\n                best_model = self.flow.state_dict()")],
  "training that stops early", "the 'best' parameters alias the live ones, so the flow is left at the last epoch's parameters", "@@C26@@")
S("s28-blobs-not-replaced", "C27", "sampler.py", [("                    if self.have_blobs:\n                        blobs[infinite_idx] = blobs[idx]\n", "")],
  "a likelihood with blobs that is -inf for some prior draws", "replaced particles keep the blob of the discarded point", "@@C27@@")
S("s29-nprior-small", "C28", "sampler.py", [("self.n_prior = int(np.maximum(n_prior/self.n_active, 1) * self.n_active)", "self.n_prior = int(n_prior)")],
  "n_prior smaller than n_active", "not even one full batch of prior samples is drawn", """from pocomc import Sampler, Prior
from scipy.stats import uniform
s=Sampler(Prior([uniform(0,1)]*2),lambda x:0.0,n_active=64,n_effective=128,n_prior=10,random_state=0)
sys.exit(0 if s.n_prior>=64 else 1)""")

# ---- edits inside one kernel, demos that need more code -------------------------------------------------
KPRE = '''
import torch
from pocomc import mcmc
from pocomc.scaler import Reparameterize
class G: pass
class ToyFlow:
    """x = sinh(theta) coordinatewise: log|dx/dtheta| = log cosh theta, not constant"""
    def forward(self, u):
        th = torch.asinh(u); return th, -torch.log(torch.cosh(th)).sum(1)
    def inverse(self, th):
        return torch.sinh(th), torch.log(torch.cosh(th)).sum(1)
def setup(n=200, d=2, seed=0, bounds=None):
    np.random.seed(seed)
    sc = Reparameterize(d, np.tile([-np.inf, np.inf], (d, 1)) if bounds is None else bounds, scale=False)
    u = np.random.randn(n, d); x, J = sc.inverse(u)
    g = G(); g.normal_cov = np.eye(d); g.normal_mean = np.zeros(d); g.t_mean = np.zeros(d); g.t_cov = np.eye(d); g.t_nu = 5.0
    return sc, u, x, J, g
def call(kernel, sc, u, x, J, g, ll, lp, n_max=1, beta=1.0, scale=0.7, L=None):
    st = dict(u=u, x=x, logdetj=J, logl=np.array([ll(z) for z in x]) if L is None else L, logp=lp(x), beta=beta, blobs=None)
    fn = dict(loglike=lambda X: (np.array([ll(z) for z in X]), None), logprior=lp, scaler=sc, flow=ToyFlow(), theta_geometry=g, u_geometry=g)
    return st, kernel(st, fn, dict(n_max=n_max, n_steps=100, progress_bar=None, proposal_scale=scale))
'''
def infunc(fn, old, new):
    def f(src):
        a = src.index("def %s(" % fn)
        nxt = src.find("\ndef ", a + 1)
        b = len(src) if nxt < 0 else nxt
        body = src[a:b]
        assert body.count(old) == 1, (fn, old, body.count(old))
        return src[:a] + body.replace(old, new) + src[b:]
    return f

SAM = '''
from pocomc import Sampler, Prior
from scipy.stats import uniform, norm
'''
OVER = {
"s06-nan-accept-rwm": ([lambda s: infunc("rwm", "        alpha[np.isnan(alpha)] = 0.0\n", "")(s), lambda s: infunc("rwm", "mask = u_rand < alpha", "mask = ~(u_rand >= alpha)")(s)],
 KPRE + '''
sc,u,x,J,g = setup()
ll = lambda z: np.nan if z[0] > 0.0 else -0.5*np.sum(z**2)
lp = lambda X: np.zeros(len(X))
u = -np.abs(u); x, J = sc.inverse(u)
st, r = call(mcmc.rwm, sc, u, x, J, g, ll, lp, n_max=1)
sys.exit(0 if not np.any(np.isnan(r['logl'])) and np.all(np.isfinite(r['x'])) else 1)'''),
"s07-stale-flow-jacobian": ([infunc("preconditioned_rwm", "        logdetj_flow[mask] = logdetj_flow_prime[mask]\n", "")],
 KPRE + '''
# long run on a N(0,1) target: the sample variance must be one
sc,u,x,J,g = setup(n=2000)
lp = lambda X: np.zeros(len(X)); ll = lambda z: -0.5*np.sum(z**2)
u = u*0.0 + 3.0*np.sign(u); x, J = sc.inverse(u)
st, r = call(mcmc.preconditioned_rwm, sc, u, x, J, g, ll, lp, n_max=60)
v = np.var(r['x']); print(v)
sys.exit(0 if 0.93 < v < 1.07 else 1)'''),
"s08-logl-inplace": ([infunc("pcn", "logl = np.copy(state_dict.get('logl'))", "logl = state_dict.get('logl')")],
 KPRE + '''
sc,u,x,J,g = setup()
lp = lambda X: np.zeros(len(X)); ll = lambda z: -0.5*np.sum(z**2)
L = np.array([ll(z) for z in x]); K = L.copy()
st, r = call(mcmc.pcn, sc, u, x, J, g, ll, lp, L=L)
sys.exit(0 if np.array_equal(L, K) else 1)'''),
"s09-calls-before-prior": ([infunc("preconditioned_pcn", "        n_calls += np.sum(finite_mask)\n", ""), infunc("preconditioned_pcn", "        # Evaluate prior\n", "        # Evaluate prior\n        n_calls += np.sum(finite_mask)\n")],
 KPRE + '''
sc,u,x,J,g = setup()
cnt = [0]
def ll(z):
    cnt[0] += 1; return -0.5*np.sum(z**2)
lp = lambda X: np.where(np.abs(X[:,0]) < 4, 0.0, -np.inf) if len(X) else np.zeros(0)
u = np.clip(u, -3.9, 3.9); x, J = sc.inverse(u); g.t_cov = 4*np.eye(2)
L = np.zeros(len(x)); c0 = cnt[0]
st, r = call(mcmc.preconditioned_pcn, sc, u, x, J, g, ll, lp, n_max=4, L=L)
sys.exit(0 if r['calls'] == cnt[0] - c0 else 1)'''),
"s11-bisect-tolerance": (None, SAM + '''
s = Sampler(Prior([uniform(-1,2)]*2), lambda x: -0.5e7*np.sum(x**2), n_effective=128, n_active=64, precondition=False, dynamic=False, random_state=0)
class Stop(Exception): pass
n = [0]; orig = s._reweight; bad = [0]
def rw(cp):
    r = orig(cp)
    b0 = s.particles.get('beta', -1)
    if b0 < r['beta'] < 1.0 and abs(r['ess'] - 128) > 0.0101*128: bad[0] += 1
    n[0] += 1
    if n[0] > 6: raise Stop
    return r
s._reweight = rw
try: s.run(n_total=256, n_evidence=0, progress=False)
except Stop: pass
sys.exit(1 if bad[0] else 0)'''),
"s12-stop-early": (None, SAM + '''
s = Sampler(Prior([uniform(-1,2)]*2), lambda x: 0.0, n_effective=128, n_active=64, precondition=False, random_state=0)
for t in range(20): s.particles.update(dict(u=np.zeros((64,2)),x=np.zeros((64,2)),logl=np.zeros(64),logp=np.zeros(64),logdetj=np.zeros(64),beta=min(1.0,0.0),logz=0.0))
s.n_total = 100
ok = s._not_termination(dict(beta=0.995)) and s._not_termination(dict(beta=0.9998)) and not s._not_termination(dict(beta=1.0))
sys.exit(0 if ok else 1)'''),
"s16-resample-size": (None, SAM + '''
s = Sampler(Prior([uniform(-1,2)]*2), lambda x: -np.sum(x**2), n_effective=64, n_active=None, precondition=False, random_state=0)
n = 100; w = np.ones(n)/n; z = np.arange(n)*1.0
r = s._resample(dict(u=np.stack([z,z],1),x=np.stack([z,z],1),logdetj=z,logl=z,logp=z,weights=w,blobs=None))
sys.exit(0 if r['u'].shape == (s.n_active,2) else 1)'''),
"s17-logw-not-trimmed": (None, SAM + '''
s = Sampler(Prior([uniform(-1,2)]*2), lambda x: -50*np.sum(x**2), n_effective=128, n_active=64, precondition=False, random_state=0)
s.run(n_total=256, n_evidence=0, progress=False)
x, lw, ll, lp = s.posterior(return_logw=True)
ok = len(x) == len(lw) == len(ll)
sys.exit(0 if ok else 1)'''),
"s18-bootstrap-perm": ([lambda s: s.replace("np.random.choice(len(logw), len(logw))", "np.random.choice(len(logw), len(logw), replace=False)")],
 SAM + '''
import torch
s = Sampler(Prior([uniform(-1,2)]*2), lambda x: -np.sum(x**2), n_effective=128, n_active=64, random_state=0)
s.scaler.fit(s.prior.rvs(500))
class P:
    def update_stats(self, d): pass
s.pbar = P()
s._compute_evidence(400)
sys.exit(0 if s.evidence()[1] > 1e-6 else 1)'''),
"s19-bytes-blobs": (None, SAM + '''
s = Sampler(Prior([uniform(-1,2)]*2), lambda x: (float(x[0]), b'a' if x[0] < 0 else b'abcdef'), n_effective=128, n_active=64, precondition=False, random_state=0)
l, b = s._log_like(np.array([[-0.5,0.],[0.5,0.]]))
sys.exit(0 if b[0] == b'a' and b[1] == b'abcdef' else 1)'''),
"s20-close-last-worker": (None, '''
from pocomc import parallel
class C:
    def __init__(self): self.size = 4; self.sent = []
    def Get_rank(self): return 0
    def Get_size(self): return 4
    def send(self, m, dest, tag): self.sent.append((m, dest))
class M: COMM_WORLD = None
parallel.MPI = M
c = C(); p = parallel.MPIPool(comm=c); p.close(); got = sorted(d for m, d in c.sent if m is None)
c.sent = []
sys.exit(0 if got == [1, 2, 3] else 1)'''),
"s21-no-flush": (None, SAM + '''
import os, tempfile, shutil, io
from pathlib import Path
d = tempfile.mkdtemp()
try:
    s = Sampler(Prior([uniform(-1,2)]*2), lambda x: 0.0, n_effective=128, n_active=64, precondition=False, random_state=0)
    s.pbar = None
    sizes = {}
    of = os.fsync
    import builtins, pocomc.sampler as ps
    ps.open = lambda p, m='r': builtins.open(p, m, buffering=1 << 26)  # any buffer size is allowed
    def fs(fd):
        sizes['synced'] = os.fstat(fd).st_size; return of(fd)
    os.fsync = fs
    p = Path(d) / 'a.state'
    s.save_state(p)
    ok = sizes.get('synced', -1) == p.stat().st_size
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)'''),
"s22-drop-prior-samples": (None, SAM + '''
import tempfile, shutil
from pathlib import Path
d = tempfile.mkdtemp()
try:
    mk = lambda: Sampler(Prior([uniform(-1,2)]*2), lambda x: -np.sum(x**2), n_effective=64, n_active=32, precondition=False, random_state=0)
    s = mk(); s.run(n_total=64, n_evidence=0, progress=False, save_every=1)if False else None
    s = mk(); s.output_dir = d; s.run(n_total=64, n_evidence=0, progress=False)
    s.save_state(Path(d) / 'a.state')
    r = mk(); r.load_state(Path(d) / 'a.state')
    ok = r.prior_samples is not None and np.array_equal(r.prior_samples, s.prior_samples)
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)'''),
"s24-seed-zero": (None, SAM + '''
import torch
def go(k):
    np.random.seed(k); torch.manual_seed(k)
    s = Sampler(Prior([uniform(-1,2)]*2), lambda x: 0.0, n_effective=64, n_active=32, random_state=0)
    return s.prior.rvs(5), [p.detach().numpy().copy() for p in s.flow.flow.parameters()]
a, b = go(1), go(2)
ok = np.array_equal(a[0], b[0]) and all(np.array_equal(p, q) for p, q in zip(a[1], b[1]))
sys.exit(0 if ok else 1)'''),
"s27-best-model-alias": (None, '''
import torch, zuko, copy
from pocomc.flow import Flow
torch.manual_seed(0); np.random.seed(0)
f = Flow(2, 'maf3')
x = torch.randn(60, 2)
seen = []
orig = f.flow.load_state_dict
def lsd(sd, *a, **k):
    seen.append(copy.deepcopy(sd)); return orig(sd, *a, **k)
object.__setattr__(f.flow, 'load_state_dict', lsd)
hist_params = []
oe = f.flow.eval
def ev():
    hist_params.append(copy.deepcopy(f.flow.state_dict())); return oe()
object.__setattr__(f.flow, 'eval', ev)
h = f.fit(x, validation_split=0.5, epochs=400, batch_size=10, patience=4, learning_rate=0.02, shuffle=False, annealing=False)
assert len(h['loss']) < 400
k = int(np.argmin(h['val_loss']))
best = hist_params[k]; now = f.flow.state_dict()
ok = all(torch.equal(best[q], now[q]) for q in best)
sys.exit(0 if ok else 1)'''),
"s28-blobs-not-replaced": (None, SAM + '''
def ll(x):
    return (-np.inf if x[0] > 0.3 else -np.sum(x**2), float(x[0]))
s = Sampler(Prior([uniform(-1,2)]*2), ll, n_effective=64, n_active=32, precondition=False, random_state=0, blobs_dtype=float)
class Stop(Exception): pass
def stop(cp): raise Stop
s._not_termination = stop
try: s.run(n_total=64, n_evidence=0, progress=False)
except Stop: pass
ok = all(np.array_equal(x[:,0], b) for x, b in zip(s.particles.past['x'], s.particles.past['blobs']))
sys.exit(0 if ok else 1)'''),
}

def main():
    import os, json, subprocess, shutil, sys
    only = sys.argv[1:]
    for id, prop, file, edits, needs, breaks, demo in SEEDS:
        if only and id not in only: continue
        if id in OVER:
            ed, demo = OVER[id]
            if ed is None: ed = [(lambda o, n: (lambda s: rep(s, o, n)))(o, n) for o, n in edits]
        else:
            ed = [(lambda o, n: (lambda s: rep(s, o, n)))(o, n) for o, n in edits]
        src = open("/repo/pocomc/" + file).read(); new = src
        for e in ed: new = e(new)
        assert new != src, id
        d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
        os.makedirs("/tmp/sd/a/pocomc", exist_ok=True); os.makedirs("/tmp/sd/b/pocomc", exist_ok=True)
        open("/tmp/sd/a/pocomc/" + file, "w").write(src); open("/tmp/sd/b/pocomc/" + file, "w").write(new)
        p = subprocess.run(["git", "diff", "--no-index", "a/pocomc/" + file, "b/pocomc/" + file], cwd="/tmp/sd", capture_output=True, text=True).stdout
        p = p.replace("a/a/", "a/").replace("b/b/", "b/")
        open(d + "/patch.diff", "w").write(p)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(d + "/demo.py", "w").write(PRE + demo + "\n")
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        print("wrote", id)
    shutil.rmtree("/tmp/sd", ignore_errors=True)

def rep(s, o, n):
    assert s.count(o) == 1, (o, s.count(o))
    return s.replace(o, n)

if __name__ == "__main__":
    main()
