SEEDS = []


def seed(**k):
    SEEDS.append(k)


seed(
    id="s01_weight_virial_dep", property="C05",
    needs="a force weight changed at run time (Hamiltonian exchange, driven script) after the virial has been read",
    breaks="the total virial is not invalidated when the weight of a force component changes: stale pressure",
    edits=[("ipi/engine/forces.py", """            self._pots.add_dependency(fc._weight)
            self._virs.add_dependency(fc._weight)
""", """            self._pots.add_dependency(fc._weight)
""")],
    demo='''
from kit import *

x = simulation(system(dynamics(), forces="<force forcefield='ff' weight='1.0'/>"))
s = load(x).syslist[0]
v = A(s.forces.vir)
s.forces.mforces[0].weight = 0.5
same(s.forces.vir, 0.5 * v, "virial follows the weight")
leave(0)
''')

seed(
    id="s02_mts_virial_weight", property="C07",
    needs="multiple time stepping, a force component with a weight other than one, and a barostat (or any reader of the per-level virial)",
    breaks="the virial of a multiple-time-step level ignores the weight of the component",
    edits=[("ipi/engine/forces.py", """                rp += mforces[index].weight * mforces[index].mts_weights[level] * dv
        return rp


dproperties(MTSForces""", """                rp += mforces[index].mts_weights[level] * dv
        return rp


dproperties(MTSForces""")],
    demo='''
from kit import *

x = simulation(system(dynamics(extra="<nmts>[2,2]</nmts>"), forces="<force forcefield='ff' weight='0.4'><mts_weights>[1.0, 0.0]</mts_weights></force><force forcefield='ff'><mts_weights>[0.0, 0.5]</mts_weights></force>"))
s = load(x).syslist[0]
tot = sum(A(m.vir) for m in s.forces.mts_forces)
same(tot, A(s.forces.vir), "levels add up to the total virial")
leave(0)
''')

seed(
    id="s03_h0_restart", property="C02",
    needs="a constant-stress run with the anisotropic barostat, a stress that is not isotropic, a cell that has moved away from the reference, and a restart from a checkpoint",
    breaks="the checkpoint stores the instantaneous cell as the reference cell, so that the restarted trajectory feels a different external stress",
    edits=[("ipi/inputs/barostats.py", "            self.h0.store(baro.h0)\n", "            self.h0.store(baro.cell)\n")],
    demo='''
from kit import *

baro = "<barostat mode='anisotropic'><tau>3000</tau><h0 shape='(3,3)'>%s</h0></barostat>" % arr(np.diag([10.0, 11.0, 12.0]))
mot = dynamics("nst", extra=baro + "<thermostat mode='langevin'><tau>1000</tau></thermostat>")
ens = "<stress>%s</stress>" % arr([1e-5, 2e-6, 0, 2e-6, -2e-5, 0, 0, 0, 3e-5])
x = simulation(system(mot, ensemble=ens), nsteps=12, outputs="<checkpoint stride='6' filename='chk' overwrite='False'/>")
sim = load(x)
run(sim)
q, h = A(sim.syslist[0].beads.q), A(sim.syslist[0].cell.h)
sim = load("sim.chk_1")
run(sim)
same(sim.syslist[0].cell.h, h, "cell after restart", 1e-8)
same(sim.syslist[0].beads.q, q, "positions after restart", 1e-8)
leave(0)
''')

seed(
    id="s04_open_pacmd", property="C06",
    needs="an open path in a PA-CMD frequency scheme",
    breaks="dynamical masses of open paths are built from the closed-path frequencies, so that the internal modes do not oscillate at the requested frequency",
    edits=[("ipi/engine/normalmodes.py", "                sk = self.o_omegak[b] / self.nm_freqs[0]\n", "                sk = self.omegak[b] / self.nm_freqs[0]\n")],
    demo='''
from kit import *

x = simulation(system(dynamics(), nbeads=4, nm="<normal_modes transform='matrix'><frequencies style='pa-cmd'>[0.02]</frequencies><open_paths>[1]</open_paths></normal_modes>"))
s = load(x).syslist[0]
dyn = A(s.nm.dynm3)[:, 3] / A(s.beads.m3)[0, 3]
w = 2 * 4 * 0.001 * np.sin(np.arange(4) * np.pi / 8)
same(w[1:] / np.sqrt(dyn[1:]), 0.02 * np.ones(3), "frequencies of the open path", 1e-6)
leave(0)
''')

seed(
    id="s05_mts_pdt", property="C08",
    needs="multiple time stepping with three levels",
    breaks="the momentum steps of the third level are not divided by the number of inner steps of the second one",
    edits=[("ipi/engine/motion/dynamics.py", """        for i in range(1, len(dtl)):
            dtl[i] *= dtl[i - 1]
""", """        dtl[1:] *= dtl[:-1]
""")],
    demo='''
from kit import *

f = "<force forcefield='ff'><mts_weights>[0,0,1]</mts_weights></force>"
def go(dt, n, nmts):
    s = load(simulation(system(dynamics(dt=dt, extra="<nmts>%s</nmts>" % nmts), forces=f))).syslist[0]
    for i in range(n):
        s.motion.step(i)
    return A(s.beads.q)
a = go(8.0, 10, "[2,2,2]")
b = go(1.0, 80, "[1,1,1]")
same(a, b, "inner steps of a fast force are plain velocity Verlet at the inner time step", 1e-9)
leave(0)
''')

seed(
    id="s06_remd_reject_baro", property="C18",
    needs="replica exchange between constant-pressure replicas at different temperatures, and a swap that is rejected",
    breaks="a rejected swap does not give the second replica its barostat momentum back",
    edits=[("ipi/engine/smotion/remd.py", """                            sl[i].motion.barostat.p *= ti / tj
                            sl[j].motion.barostat.p *= tj / ti
""", """                            sl[i].motion.barostat.p *= ti / tj
                            sl[j].motion.barostat.p *= ti / tj
""")],
    demo='''
from kit import *

baro = "<barostat mode='isotropic'><tau>3000</tau><p>[ %g ]</p></barostat>"
def sy(i, t):
    return system(dynamics("npt", extra=(baro % (3.0 + i)) + "<thermostat mode='langevin'><tau>1000</tau></thermostat>"), temp=t, ensemble="<pressure>1e-5</pressure>", seed=i, prefix="s%d" % i)

sim = load(simulation([sy(1, 0.001), sy(2, 0.003)], extra="<smotion mode='remd'><remd><stride>1</stride></remd></smotion>"))
class U:  # always tries, never accepts
    n = 0
    @property
    def u(self):
        U.n += 1
        return 0.0 if U.n % 2 else 1e300
sim.smotion.prng = U()
p0 = [A(s.motion.barostat.p) for s in sim.syslist]
q0 = [A(s.beads.p) for s in sim.syslist]
sim.smotion.step(0)
for i, s in enumerate(sim.syslist):
    same(s.beads.p, q0[i], "momenta after a rejected swap")
    same(s.motion.barostat.p, p0[i], "barostat momentum after a rejected swap")
leave(0)
''')

seed(
    id="s07_swap_old_cell", property="C24",
    needs="atom swaps in a run whose cell changes after the first step (another motion with a barostat)",
    breaks="the trial structure of an atom swap is evaluated in the cell the run started from",
    edits=[("ipi/engine/motion/atomswap.py", """        self.dcell.h = (
            self.cell.h
        )  # just in case the cell gets updated in the other motion classes
""", "")],
    demo='''
from kit import *

mot = "<motion mode='atomswap'><atomswap><nxc>4.0</nxc><names>[ H, D ]</names></atomswap></motion>"
s = load(simulation(system(mot, natoms=4, names=["H", "D", "H", "D"], temp=0.05), ffs=ff(pars="kv: 0.01"))).syslist[0]
s.cell.h = 1.3 * A(s.cell.h)
e = A(s.forces.pot) + A(s.motion.ealc)
for i in range(20):
    s.motion.step(i)
require(abs(A(s.motion.ealc)) > 0, "swaps were accepted")
pot = float(A(s.forces.pot))
q = A(s.beads.q)
s.beads.q[:] = q + 0.1
A(s.forces.pot)
s.beads.q[:] = q
same(s.forces.pot, pot, "potential energy after the swaps", 1e-9)
leave(0)
''')

seed(
    id="s08_boson_shift", property="C19",
    needs="bosons far enough apart (or cold enough) that a short cycle has much lower energy than the longest one",
    breaks="the exponentials of the bosonic recursion are shifted by the longest cycle instead of the lowest energy, and overflow",
    edits=[("ipi/utils/exchange.py", """            subdivision_potentials = V[:m] + dstrip(self.cycle_energies)[:m, m - 1]
            Elong = np.min(subdivision_potentials)
""", """            subdivision_potentials = V[:m] + dstrip(self.cycle_energies)[:m, m - 1]
            Elong = subdivision_potentials[0]
""")],
    demo='''
from kit import *

def springs(d):
    q = np.array([[d * (i // 3) if i % 3 == 0 else 0.0 for i in range(9)]] * 4)
    q += 0.05 * np.random.default_rng(1).standard_normal(q.shape)
    x = simulation(system(dynamics(), nbeads=4, natoms=3, g=(q, 0 * q, np.full(3, 1837.0)), nm="<normal_modes propagator='bab'><nmts>5</nmts><bosons id='index'>[ 0, 1, 2 ]</bosons></normal_modes>"))
    s = load(x).syslist[0]
    return float(s.nm.vspring), q
for d in (0.2, 5.0, 200.0):
    try:
        v, q = springs(d)
    except AssertionError as e:
        require(False, "spring energy of bosons %g apart (%r)" % (d, e))
    require(np.isfinite(v), "spring energy of bosons %g apart" % d)
w2 = (4 * 0.001) ** 2
free = 0.5 * 1837.0 * w2 * ((q - np.roll(q, 1, axis=0)) ** 2).sum()
T = 4 * 0.001
same(v, free + T * np.log(6.0), "well separated bosons are distinguishable", 1e-6)
leave(0)
''')

seed(
    id="s09_prng_tail", property="C23",
    needs="several threads in the random generator and an array whose size is large and not a multiple of the number of threads",
    breaks="the last few numbers of large arrays filled by threads are left as they were in memory",
    edits=[("ipi/utils/prng.py", "        step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)\n", "        step_size = len(out_flat) // self.n_threads\n")],
    demo='''
from kit import *
from ipi.utils.prng import Random

r = Random(seed=3, n_threads=4)
for n in (10, 4000, 40000, 40003, 100001):
    x = np.full(n, np.nan)
    r.gfill(x)
    require(np.isfinite(x).all(), "%d numbers are filled" % n)
leave(0)
''')

seed(
    id="s10_reference_strain", property="C10",
    needs="constant stress with a cell that is sheared with respect to the reference cell",
    breaks="the external stress that drives the cell is pulled back with the transposed strain, so that it is not the derivative of the strain energy",
    edits=[("ipi/engine/barostats.py", "        pi_ext = np.dot(hh0, np.dot(self.stressext, hh0.T)) * self.h0.V / self.cell.V\n", "        pi_ext = np.dot(hh0.T, np.dot(self.stressext, hh0)) * self.h0.V / self.cell.V\n")],
    demo='''
from kit import *

def econs(dt, n):
    mot = dynamics("nst", dt=dt, extra="<barostat mode='anisotropic'><tau>400</tau><p shape='(3,3)'>[ 3, 4, -5, 0, 1, 6, 0, 0, -3 ]</p><h0 shape='(3,3)'>[ 10, -2, 1, 0, 10, 2, 0, 0, 12 ]</h0></barostat>")
    s = load(simulation(system(mot, natoms=3, ensemble="<stress>[ 1e-4, 5e-5, 0, 5e-5, 3e-4, 0, 0, 0, 2e-4 ]</stress>", cell=np.array([[10.0, 1.0, 0.5], [0, 11.0, -1.0], [0, 0, 12.0]])))).syslist[0]
    e = float(s.ensemble.econs)
    d = 0.0
    for i in range(n):
        s.motion.step(i)
        d = max(d, abs(float(s.ensemble.econs) - e))
    return d
a, b = econs(8.0, 25), econs(4.0, 50)
print("drift", a, b)
require(a / b > 3.0 and a / b < 5.0, "drift of the conserved quantity falls with the square of the time step")
leave(0)
''')

seed(
    id="s11_velocity_index_mass", property="C26",
    needs="the velocity of a single atom given by index, in a system of different masses",
    breaks="a velocity given for one atom is turned into a momentum with the mass of the first atom",
    edits=[("ipi/engine/initializer.py", "                    rv *= simul.beads.m[v.index]\n", "                    rv *= simul.beads.m[0]\n")],
    demo='''
from kit import *

open("a.xyz", "w").write(chr(10).join(["3", "# CELL(abcABC): 10 10 10 90 90 90 positions{atomic_unit} cell{atomic_unit}", "H 0 0 0", "O 2 0 0", "C 0 3 0", ""]))
init = "<initialize nbeads='2'><file mode='xyz'>a.xyz</file><velocities mode='manual' index='1'>[ 1e-4, 2e-4, -3e-4, 1e-4, 2e-4, -3e-4 ]</velocities></initialize>"
x = simulation("<system>" + init + "<forces><force forcefield='ff'/></forces><ensemble><temperature>0.001</temperature></ensemble>" + dynamics() + "</system>")
s = load(x).syslist[0]
m = A(s.beads.m)
for b in range(2):
    same(A(s.beads.p)[b, 3:6] / m[1], np.array([1e-4, 2e-4, -3e-4]), "velocity of atom 1 in bead %d" % b, 1e-12)
leave(0)
''')

seed(
    id="s12_neighbour_skin", property="C21",
    needs="two atoms that both move, between half and all of the width of the neighbour-list skin, towards each other before the list is rebuilt",
    breaks="the neighbour lists of the Fortran driver are kept until one atom has crossed the whole skin, so that pairs in which both atoms moved are missed",
    count=2,
    edits=[("drivers/f90/driver.f90", "IF (4*displacement > (rn-rc)*(rn-rc)) THEN", "IF (displacement > (rn-rc)*(rn-rc)) THEN")],
    demo='''
from kit import *
import socket, struct, subprocess

REPO = sys.path[0] if os.path.isdir(sys.path[0] + "/drivers") else [p for p in sys.path if os.path.isdir(p + "/drivers")][0]

class Link:
    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(1)
        self.s.settimeout(30)
        self.d = subprocess.Popen([REPO + "/drivers/f90/driver.x", "-a", "127.0.0.1", "-p", str(self.s.getsockname()[1]), "-m", "lj", "-o", "5.0,1e-2,10.0"], stdout=subprocess.DEVNULL)
        self.c, _ = self.s.accept()
        self.c.settimeout(30)
    def get(self, n):
        b = b""
        while len(b) < n:
            x = self.c.recv(n - len(b))
            require(x, "connection") if not x else None
            b += x
        return b
    def energy(self, q, h):
        while True:
            self.c.sendall(b"STATUS      ")
            st = self.get(12).strip()
            if st == b"NEEDINIT":
                self.c.sendall(b"INIT        " + struct.pack("ii", 0, 1) + b"x")
            elif st == b"READY":
                self.c.sendall(b"POSDATA     " + np.ascontiguousarray(h).tobytes() + np.linalg.inv(h).tobytes() + struct.pack("i", len(q)) + np.ascontiguousarray(q).tobytes())
            elif st == b"HAVEDATA":
                break
        self.c.sendall(b"GETFORCE    ")
        self.get(12)
        v = struct.unpack("d", self.get(8))[0]
        n = struct.unpack("i", self.get(4))[0]
        self.get(24 * n + 72)
        self.get(struct.unpack("i", self.get(4))[0])
        return v
    def end(self):
        self.c.sendall(b"EXIT        ")
        self.c.close()
        self.d.wait(20)

h = np.eye(3) * 60.0
a = Link()
worst = 0.0
for x in (12.4, 12.0, 11.0, 10.5, 9.6, 9.2, 8.9):
    q = np.array([[30 - x / 2, 30.0, 30.0], [30 + x / 2, 30.0, 30.0]])
    e = a.energy(q, h)
    b = Link()
    worst = max(worst, abs(e - b.energy(q, h)))
    b.end()
a.end()
require(worst < 1e-12, "energy does not depend on the structures computed before (%g)" % worst)
leave(0)
''')

seed(
    id="s13_pile_g_dof", property="C11",
    needs="the pile_g thermostat with several beads and a fixed centre of mass",
    breaks="the velocity-rescaling thermostat of the centroid counts the three degrees of freedom of the fixed centre of mass",
    edits=[("ipi/engine/thermostats.py", "\n        fixdof0 = (fixdof - ncom) // nm.nbeads + ncom\n", "\n        fixdof0 = fixdof // nm.nbeads\n")],
    demo='''
from kit import *

for P in (1, 2, 4):
    mot = "<motion mode='dynamics'><dynamics mode='nvt'><timestep>1</timestep><thermostat mode='pile_g'><tau>10</tau></thermostat></dynamics><fixcom>True</fixcom></motion>"
    s = load(simulation(system(mot, nbeads=P, natoms=3))).syslist[0]
    same(s.motion.thermostat._thermos[0].ndof, 6, "degrees of freedom of the centroid with %d beads" % P)
leave(0)
''')

seed(
    id="s14_xyz_exponent", property="C13",
    needs="an xyz file whose CELL(H) or CELL(GENH) line has numbers in exponent notation",
    breaks="cells written in exponent notation are read up to the first exponent and filled with zeros, without an error",
    edits=[("ipi/utils/io/backends/io_xyz.py", """    re.compile(r"CELL[\\(\\[\\{]H[\\)\\]\\}]: ([-+0-9\\.?Ee ]*)\\s*"),
    re.compile(r"CELL[\\(\\[\\{]GENH[\\)\\]\\}]: ([-+0-9\\.?Ee ]*)\\s*"),
""", """    re.compile(r"CELL[\\(\\[\\{]H[\\)\\]\\}]: ([-+0-9\\.? ]*)\\s*"),
    re.compile(r"CELL[\\(\\[\\{]GENH[\\)\\]\\}]: ([-+0-9\\.? ]*)\\s*"),
""")],
    demo='''
from kit import *
from ipi.utils.io import read_file

h = np.array([[10.0, 1.5, 0.25], [0, 11.0, -1e-3], [0, 0, 12.0]])
for fmt in ("%.8f", "%.8e", "%.8E"):
    with open("a.xyz", "w") as f:
        f.write("1" + chr(10) + "# CELL(H): " + " ".join(fmt % x for x in h.ravel()) + " positions{atomic_unit} cell{atomic_unit}" + chr(10) + "H 0 0 0" + chr(10))
    try:
        g = read_file("xyz", open("a.xyz"))["cell"].h
    except Exception as e:
        require(False, "cell in format %s: %r" % (fmt, e))
    same(g, h, "cell in format " + fmt, 1e-6)
leave(0)
''')

seed(
    id="s15_rotation_virial", property="C25",
    needs="a rotation-averaged force field and someone who looks at the stress",
    breaks="the virial of every rotated evaluation is rotated forward instead of back",
    edits=[("ipi/engine/forcefields.py", "            virs.append((R.T @ ff_r[\"result\"][2] @ R))\n", "            virs.append((R @ ff_r[\"result\"][2] @ R.T))\n")],
    demo='''
from kit import *

base = ff("base", pars="kt: 0.0, kv: 0.0")
rot = "<ffrotations name='ff'>%s<random>False</random><grid_order>3</grid_order></ffrotations>" % base
x = simulation(system(dynamics(), natoms=3), ffs=rot)
s = load(x)
r = s.syslist[0]
v = A(r.forces.vir)
d = load(simulation(system(dynamics(), natoms=3), ffs=ff(pars="kt: 0.0, kv: 0.0"))).syslist[0]
same(np.triu(v), np.triu(A(d.forces.vir)), "an invariant potential has the same virial when averaged over rotations", 1e-9)
leave(0)
''')

seed(
    id="s16_eda_nvt_clock", property="C28",
    needs="thermostatted driven dynamics in a field that changes over a time step",
    breaks="the second half of the impulse of the field uses the field at the beginning of the step in eda-nvt",
    edits=[("ipi/engine/motion/driven_dynamics.py", """        NVTIntegrator.step(self, step)
        time = self.time + self.dt
""", """        NVTIntegrator.step(self, step)
""")],
    demo='''
from kit import *

dt, w, N, Z = 20.0, 0.02, 25, 0.3
amp = np.array([0.01, -0.02, 0.005])
np.savetxt("bec.txt", np.vstack([Z * np.eye(3), -Z * np.eye(3)]))
def go(a):
    mot = "<motion mode='driven_dynamics'><driven_dynamics mode='eda-nvt'><timestep>%r</timestep><thermostat mode='langevin'><tau>1e9</tau></thermostat><efield><amp>%s</amp><freq>%r</freq></efield><bec mode='file'>bec.txt</bec></driven_dynamics><fixcom>False</fixcom></motion>" % (dt, arr(a), w)
    g = (np.array([[0.0, 0, 0, 2.5, 0, 0]]), np.zeros((1, 6)), np.array([1e9, 1e9]))
    sim = load(simulation(system(mot, g=g, temp=1e-12), ffs=ff(pars="k: 0.0, kt: 0.0, kv: 0.0"), nsteps=N))
    run(sim)
    return A(sim.syslist[0].beads.p)[0]
d = go(amp) - go(0 * amp)
t = dt * np.arange(N + 1)
c = np.cos(w * t)
want = dt * (c.sum() - 0.5 * c[0] - 0.5 * c[-1]) * Z * amp
same(d[:3], want, "impulse of the field", 1e-3 * np.abs(want).max())
leave(0)
''')

seed(
    id="s17_thermalize_masses", property="C29",
    needs="thermalize_momenta on a path-integral simulation whose normal modes have dynamical masses different from the physical ones",
    breaks="the momenta drawn are those of the physical masses, so that the modes with scaled masses get the wrong temperature",
    edits=[("ipi/scripting/interactive.py", "                * np.sqrt(dstrip(s.nm.dynm3))\n", "                * np.sqrt(dstrip(s.beads.m3))\n")],
    demo='''
from kit import *
from ipi.scripting import InteractiveSimulation

nm = "<normal_modes propagator='exact'><frequencies style='pa-cmd'>[ 0.05 ]</frequencies></normal_modes>"
T, P = 0.001, 4
sim = InteractiveSimulation(simulation(system(dynamics("nvt", extra="<thermostat mode='pile_l'><tau>100</tau></thermostat>"), nbeads=P, natoms=3, nm=nm, temp=T)))
s = sim.syslist[0]
x = 0
n = 3000
for i in range(n):
    sim.thermalize_momenta()
    x = x + A(s.nm.pnm) ** 2 / A(s.nm.dynm3) / (P * T) / n
same(x.mean(1), np.ones(P), "temperature of the normal modes", 0.1)
leave(0)
''')

seed(
    id="s18_acf_labels", property="C30",
    needs="an autocorrelation function of atoms with two or more labels",
    breaks="only the atoms with the last label in the list enter",
    edits=[("ipi/utils/tools/acf_xyz.py", """                labelbool = np.logical_or(labelbool, rr["names"] == l)
""", """                labelbool = np.asarray(rr["names"]) == l
""")],
    demo='''
from kit import *
from ipi.utils.tools import compute_acf_xyz

rng = np.random.default_rng(1)
names = ["H", "O", "C", "H"]
with open("v.xyz", "w") as f:
    for t in range(60):
        f.write("4" + chr(10) + "# CELL(abcABC): 10 10 10 90 90 90 Step: %d velocities{atomic_unit} cell{atomic_unit}" % t + chr(10))
        for n in names:
            f.write(n + " %.10f %.10f %.10f" % tuple(rng.normal(size=3)) + chr(10))
r = compute_acf_xyz("v.xyz", maximum_lag=5, block_length=20, labels=["H", "O"])
m = compute_acf_xyz("v.xyz", maximum_lag=5, block_length=20, atom_mask=np.array([True, True, False, True]))
same(r[1], m[1], "correlation of two kinds of atoms", 1e-8)
leave(0)
''')

seed(
    id="s19_plumed_box", property="C31",
    needs="a PLUMED bias in a triclinic cell",
    breaks="the box handed to PLUMED has the lattice vectors as columns instead of rows",
    edits=[("ipi/engine/forcefields.py", '        self.box = r["cell"][0].T.copy()\n', '        self.box = r["cell"][0].copy()\n')],
    demo='''
from kit import *
import types

boxes = []
class Plumed:
    def cmd(self, what, x=None):
        if what == "setBox":
            boxes.append(np.array(x))
        elif what == "getBias":
            x[0] = 0.0
    def finalize(self):
        pass
mod = types.ModuleType("plumed")
mod.Plumed = Plumed
sys.modules["plumed"] = mod
import ipi.engine.forcefields as fm
if hasattr(fm, "plumed"):
    fm.plumed = mod
from ipi.engine.forcefields import FFPlumed
from ipi.engine.initializer import InitFile

h = np.array([[10.0, 1.5, 0.7], [0, 11.0, -1.2], [0, 0, 12.0]])
with open("i.xyz", "w") as f:
    f.write("2" + chr(10) + "# CELL(abcABC): 10 10 10 90 90 90" + chr(10) + "H 0 0 0" + chr(10) + "H 1 0 0" + chr(10))
open("p.dat", "w").close()
x = simulation(system(dynamics(), cell=h, ensemble="<bias><force forcefield='pl'/></bias>"),
               ffs=ff() + "<ffplumed name='pl'><file mode='xyz'>i.xyz</file><plumed_dat>p.dat</plumed_dat></ffplumed>", nsteps=1)
run(load(x))
require(len(boxes) > 0, "PLUMED is called")
same(boxes[-1], h.T, "rows of the box are the lattice vectors", 1e-9)
leave(0)
''')

seed(
    id="s20_requeue_batch", property="C04",
    needs="a driver that dies while it works on a batch of several structures, and another that takes over",
    breaks="only the first structure of the batch is handed to another driver, the others are never computed",
    edits=[("ipi/interfaces/sockets.py", "        for rr in r if isinstance(r, list) else [r]:\n", "        for rr in r[:1] if isinstance(r, list) else [r]:\n")],
    demo='''
from kit import *
import signal, socket, struct, threading, time

signal.signal(signal.SIGALRM, lambda *a: (print("FAIL: the forces never come"), leave(1)))
signal.alarm(90)
S = os.path.join(SCRATCH, "s_")
NB = 2

def client(die):
    c = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    while True:
        try:
            c.connect(S + "demo")
            break
        except OSError:
            time.sleep(0.05)
    def get(n):
        b = b""
        while len(b) < n:
            x = c.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b
    init, have = False, None
    try:
        while True:
            h = get(12).strip()
            if h == b"STATUS":
                c.sendall((b"HAVEDATA" if have is not None else b"READY" if init else b"NEEDINIT").ljust(12))
            elif h == b"INIT":
                get(4)
                get(struct.unpack("i", get(4))[0])
                init = True
            elif h == b"POSDATA":
                n = struct.unpack("i", get(4))[0]
                get(144 * NB)
                have = np.frombuffer(get(24 * n * NB)).reshape(NB, -1)
            elif h == b"GETFORCE":
                if die:
                    c.close()
                    dead.set()
                    return
                n = have.shape[1] // 3
                c.sendall(b"FORCEREADY  " + (0.5 * (have**2).sum(1)).tobytes() + struct.pack("i", n) + (-have).tobytes() + np.zeros((NB, 3, 3)).tobytes() + struct.pack("i", 0) * NB)
                have = None
            else:
                return
    except (EOFError, OSError):
        pass

dead = threading.Event()
def both():
    client(True)
threading.Thread(target=both, daemon=True).start()
threading.Thread(target=lambda: (dead.wait(), client(False)), daemon=True).start()
ffs = "<ffsocket name='ff' mode='unix' pbc='False'><address>demo</address><batch_size>%d</batch_size><latency>1e-3</latency></ffsocket>" % NB
sim = simulation(system(dynamics(), nbeads=NB, natoms=2), ffs=ffs, nsteps=2).replace("<simulation ", "<simulation sockets_prefix='%s' " % S)
sim = load(sim)
sim.run()
s = sim.syslist[0]
same(A(s.forces.f), -A(s.beads.q), "forces after a driver died", 1e-9)
leave(0)
''')
