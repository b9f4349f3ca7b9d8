"""Transport modes, passengers and the mode registry (C08, C09)."""
MODE = "sidermit.publictransportsystem.mode."
PAX = "sidermit.publictransportsystem.passenger."
ANY = ("alt", None, "Int", "Real")          # a caller may hand over nothing, an int or a float

SCHEMA["TransportMode"] = {"_name": "U", "_bya": "Int", "_co": "Real", "_c1": "Real", "_c2": "Real", "_v": "Real", "_t": "Real",
                           "_fmax": "Real", "_kmax": "Real", "_theta": "Real", "_tat": "Real", "_d": "Int", "_fini": "Real"}


def mode_ok(self, name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini):
    return True


def spec_mode_init(self, name, bya, co, c1, c2, v, t, fmax, kmax, theta, tat, d, fini):
    """the first parameter outside its documented range is refused with its own exception, all others are stored"""
    if name is None:
        raise NameIsNotValidExceptions()
    self._name = name
    if bya is None or (bya != 0 and bya != 1):
        raise ByaIsNotValidExceptions()
    self._bya = bya
    if co is None or co < 0:
        raise CoIsNotValidExceptions()
    self._co = co
    if c1 is None or c1 < 0:
        raise C1IsNotValidExceptions()
    self._c1 = c1
    if c2 is None or c2 < 0:
        raise C2IsNotValidExceptions()
    self._c2 = c2
    if v is None or v <= 0:
        raise VIsNotValidExceptions()
    self._v = v
    if t is None or t < 0:
        raise TIsNotValidExceptions()
    self._t = t
    if fmax * d < 0:
        raise FmaxIsNotValidExceptions()
    self._fmax = fmax * d
    if kmax is None or kmax < 0:
        raise KmaxIsNotValidExceptions()
    self._kmax = kmax
    if theta is None or theta < 0 or theta > 1:
        raise ThetaIsNotValidExceptions()
    self._theta = theta
    if tat is None or tat < 0:
        raise TatIsNotValidExceptions()
    self._tat = tat
    if d is None or d < 0:
        raise DIsNotValidExceptions()
    self._d = d
    if fini * d < 0:
        raise FiniIsNotValidException()
    self._fini = fini * d


contract(MODE + "TransportMode.__init__", "spec_mode_init", "C08", frame=False,
         args=[("self", ("new", "TransportMode")), ("name", ("alt", None, "U")), ("bya", ANY), ("co", ANY), ("c1", ANY),
               ("c2", ANY), ("v", ANY), ("t", ANY), ("fmax", ("alt", "Int", "Real")), ("kmax", ANY), ("theta", ANY), ("tat", ANY),
               ("d", "Int"), ("fini", ("alt", "Int", "Real"))])


# ---- later changes through the properties: atomic, same ranges
def set_v(self, x):
    self.v = x


def spec_set_v(self, x):
    if x is None or x <= 0:
        raise VIsNotValidExceptions()
    self._v = x


def set_theta(self, x):
    self.theta = x


def spec_set_theta(self, x):
    if x is None or x < 0 or x > 1:
        raise ThetaIsNotValidExceptions()
    self._theta = x


def set_bya(self, x):
    self.bya = x


def spec_set_bya(self, x):
    if x is None or (x != 0 and x != 1):
        raise ByaIsNotValidExceptions()
    self._bya = x


def set_name(self, x):
    self.name = x


def spec_set_name(self, x):
    if x is None:
        raise NameIsNotValidExceptions()
    self._name = x


def set_co(self, x):
    self.co = x


def spec_set_co(self, x):
    if x is None or x < 0:
        raise CoIsNotValidExceptions()
    self._co = x


def set_c1(self, x):
    self.c1 = x


def spec_set_c1(self, x):
    if x is None or x < 0:
        raise C1IsNotValidExceptions()
    self._c1 = x


def set_c2(self, x):
    self.c2 = x


def spec_set_c2(self, x):
    if x is None or x < 0:
        raise C2IsNotValidExceptions()
    self._c2 = x


def set_t(self, x):
    self.t = x


def spec_set_t(self, x):
    if x is None or x < 0:
        raise TIsNotValidExceptions()
    self._t = x


def set_fmax(self, x):
    self.fmax = x


def spec_set_fmax(self, x):
    if x is None or x < 0:
        raise FmaxIsNotValidExceptions()
    self._fmax = x


def set_kmax(self, x):
    self.kmax = x


def spec_set_kmax(self, x):
    if x is None or x < 0:
        raise KmaxIsNotValidExceptions()
    self._kmax = x


def set_tat(self, x):
    self.tat = x


def spec_set_tat(self, x):
    if x is None or x < 0:
        raise TatIsNotValidExceptions()
    self._tat = x


def set_d(self, x):
    self.d = x


def spec_set_d(self, x):
    if x is None or x < 0:
        raise DIsNotValidExceptions()
    self._d = x


def set_fini(self, x):
    self.fini = x


def spec_set_fini(self, x):
    if x is None or x < 0:
        raise FiniIsNotValidException()
    self._fini = x


for _n in ("v", "theta", "bya", "co", "c1", "c2", "t", "fmax", "kmax", "tat", "d", "fini"):
    contract("set_" + _n, "spec_set_" + _n, "C08", lemma=True, name="TransportMode." + _n + " setter",
             args=[("self", ("obj", "TransportMode")), ("x", ANY)])
contract("set_name", "spec_set_name", "C08", lemma=True, name="TransportMode.name setter",
         args=[("self", ("obj", "TransportMode")), ("x", ("alt", None, "U"))])


def read_mode(self):
    return [self.name, self.bya, self.co, self.c1, self.c2, self.v, self.t, self.fmax, self.kmax, self.theta, self.tat, self.d,
            self.fini]


def spec_read_mode(self):
    return [self._name, self._bya, self._co, self._c1, self._c2, self._v, self._t, self._fmax, self._kmax, self._theta,
            self._tat, self._d, self._fini]


contract("read_mode", "spec_read_mode", "C08", lemma=True, name="TransportMode getters", args=[("self", ("obj", "TransportMode"))])


def default_modes_ok(modes):
    return len(modes) == 2 and modes[0].name == "bus" and modes[1].name == "metro" and \
        modes[0].bya == 1 and modes[0].co == 8.61 and modes[0].c1 == 0.15 and modes[0].c2 == 0 and modes[0].v == 20 and \
        modes[0].t == 2.5 and modes[0].fmax == 600 and modes[0].kmax == 160 and modes[0].theta == 0.7 and modes[0].tat == 0 and \
        modes[0].d == 4 and modes[0].fini == 112 and \
        modes[1].bya == 0 and modes[1].co == 80.91 and modes[1].c1 == 0.3 and modes[1].c2 == 933.15 and modes[1].v == 40 and \
        modes[1].t == 0.33 and modes[1].fmax == 40 and modes[1].kmax == 1440 and modes[1].theta == 0.5 and \
        modes[1].tat == 1 and modes[1].d == 1 and modes[1].fini == 28


contract(MODE + "TransportMode.get_default_modes", None, "C08", ensures="default_modes_ok", args=[])

# ---- passengers
SCHEMA["Passenger"] = {"_" + x: "Real" for x in ("va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt")}


def spec_passenger_init(self, va, pv, pw, pa, pt, spv, spw, spa, spt):
    if va is None or va <= 0:
        raise VaIsNotValidExceptions()
    self._va = va
    if pv is None or pv < 0:
        raise PvIsNotValidExceptions()
    self._pv = pv
    if pw is None or pw < 0:
        raise PwIsNotValidExceptions()
    self._pw = pw
    if pa is None or pa < 0:
        raise PaIsNotValidExceptions()
    self._pa = pa
    if pt is None or pt < 0:
        raise PtIsNotValidExceptions()
    self._pt = pt
    if spv is None or spv < 0:
        raise SpvIsNotValidExceptions()
    self._spv = spv
    if spw is None or spw < 0:
        raise SpwIsNotValidExceptions()
    self._spw = spw
    if spa is None or spa < 0:
        raise SpaIsNotValidExceptions()
    self._spa = spa
    if spt is None or spt < 0:
        raise SptIsNotValidExceptions()
    self._spt = spt


contract(PAX + "Passenger.__init__", "spec_passenger_init", "C08", frame=False,
         args=[("self", ("new", "Passenger"))] + [(x, ANY) for x in ("va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt")])


def set_va(self, x):
    self.va = x


def spec_set_va(self, x):
    if x is None or x <= 0:
        raise VaIsNotValidExceptions()
    self._va = x


def set_pv(self, x):
    self.pv = x


def spec_set_pv(self, x):
    if x is None or x < 0:
        raise PvIsNotValidExceptions()
    self._pv = x


def set_pw(self, x):
    self.pw = x


def spec_set_pw(self, x):
    if x is None or x < 0:
        raise PwIsNotValidExceptions()
    self._pw = x


def set_pa(self, x):
    self.pa = x


def spec_set_pa(self, x):
    if x is None or x < 0:
        raise PaIsNotValidExceptions()
    self._pa = x


def set_pt(self, x):
    self.pt = x


def spec_set_pt(self, x):
    if x is None or x < 0:
        raise PtIsNotValidExceptions()
    self._pt = x


def set_spv(self, x):
    self.spv = x


def spec_set_spv(self, x):
    if x is None or x < 0:
        raise SpvIsNotValidExceptions()
    self._spv = x


def set_spw(self, x):
    self.spw = x


def spec_set_spw(self, x):
    if x is None or x < 0:
        raise SpwIsNotValidExceptions()
    self._spw = x


def set_spa(self, x):
    self.spa = x


def spec_set_spa(self, x):
    if x is None or x < 0:
        raise SpaIsNotValidExceptions()
    self._spa = x


def set_spt(self, x):
    self.spt = x


def spec_set_spt(self, x):
    if x is None or x < 0:
        raise SptIsNotValidExceptions()
    self._spt = x


for _n in ("va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"):
    contract("set_" + _n, "spec_set_" + _n, "C08", lemma=True, name="Passenger." + _n + " setter",
             args=[("self", ("obj", "Passenger")), ("x", ANY)])


def read_passenger(self):
    return [self.va, self.pv, self.pw, self.pa, self.pt, self.spv, self.spw, self.spa, self.spt]


def spec_read_passenger(self):
    return [self._va, self._pv, self._pw, self._pa, self._pt, self._spv, self._spw, self._spa, self._spt]


contract("read_passenger", "spec_read_passenger", "C08", lemma=True, name="Passenger getters",
         args=[("self", ("obj", "Passenger"))])


def default_passenger_ok(p):
    return p.va == 4 and p.pv == 2.74 and p.pw == 5.48 and p.pa == 8.22 and p.pt == 16 and p.spv == 2.74 and p.spw == 5.48 and \
        p.spa == 8.22 and p.spt == 16


contract(PAX + "Passenger.get_default_passenger", None, "C08", ensures="default_passenger_ok", args=[])

# ---- registry: names and modes are two lists of the same length, the i-th name is the name of the i-th mode, no name twice
SCHEMA["TransportModeManager"] = {"_TransportModeManager__list_name": ("list", "U"),
                                  "_TransportModeManager__modes": ("list", "TransportMode")}
MGR = ("self", ("obj", "TransportModeManager"))


def mgr_inv(names, modes):
    return len(names) == len(modes) and all(names[i] == modes[i]._name for i in range(len(names))) and \
        all(names[i] != names[j] for i in range(len(names)) for j in range(i))


def mgr_ok(self):
    return mgr_inv(self._TransportModeManager__list_name, self._TransportModeManager__modes)


def mgr_ok2(self, x):
    return mgr_ok(self)


def mgr_post(self, result):
    return mgr_ok(self)


def mgr_post2(self, x, result):
    return mgr_ok(self)


def spec_mgr_init(self, add_default_mode):
    self._TransportModeManager__list_name = []
    self._TransportModeManager__modes = []
    if add_default_mode:
        bus = TransportMode("bus", 1, 8.61, 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, 4, 28)
        metro = TransportMode("metro", 0, 80.91, 0.3, 933.15, 40, 0.33, 40, 1440, 0.5, 1, 1, 28)
        self._TransportModeManager__list_name = ["bus", "metro"]
        self._TransportModeManager__modes = [bus, metro]


contract(MODE + "TransportModeManager.__init__", "spec_mgr_init", "C09", ensures="mgr_post2",
         args=[("self", ("new", "TransportModeManager")), ("add_default_mode", "Bool")])


def spec_get_mode(self, name):
    if all(m._name != name for m in self._TransportModeManager__modes):
        raise ModeNotFoundExceptions()
    for m in self._TransportModeManager__modes:
        if m._name == name:
            return m


contract(MODE + "TransportModeManager.get_mode", "spec_get_mode", "C09", requires="mgr_ok2", args=[MGR, ("name", "U")])


def spec_get_modes(self):
    return self._TransportModeManager__modes


contract(MODE + "TransportModeManager.get_modes", "spec_get_modes", "C09", args=[MGR])


def spec_get_modes_names(self):
    return [m._name for m in self._TransportModeManager__modes]


contract(MODE + "TransportModeManager.get_modes_names", "spec_get_modes_names", "C09", requires="mgr_ok", args=[MGR])


def spec_add_mode(self, mode_obj):
    if any(m._name == mode_obj._name for m in self._TransportModeManager__modes):
        raise AddModeExceptions()
    self._TransportModeManager__modes.append(mode_obj)
    self._TransportModeManager__list_name.append(mode_obj._name)


contract(MODE + "TransportModeManager.add_mode", "spec_add_mode", "C09", requires="mgr_ok2", ensures="mgr_post2",
         args=[MGR, ("mode_obj", "TransportMode")])


def spec_add_not_a_mode(self, mode_obj):
    raise ModeIsNotValidException()


contract(MODE + "TransportModeManager.add_mode", "spec_add_not_a_mode", "C09", name="TransportModeManager.add_mode (not a mode)",
         args=[MGR, ("mode_obj", ("alt", None, "Int", "U"))])


def spec_remove_mode(self, name):
    if all(m._name != name for m in self._TransportModeManager__modes):
        raise ModeDoesNotExistExceptions()
    for i in range(len(self._TransportModeManager__modes)):
        if self._TransportModeManager__modes[i]._name == name:
            self._TransportModeManager__modes.pop(i)
            self._TransportModeManager__list_name.pop(i)
            return


contract(MODE + "TransportModeManager.remove_mode", "spec_remove_mode", "C09", requires="mgr_ok2", ensures="mgr_post2",
         args=[MGR, ("name", "U")])


def spec_is_valid_to_assignment_step(self):
    modes = self._TransportModeManager__modes
    if len(modes) == 1:
        return True
    if len(modes) == 2 and (modes[0]._d == 1 or modes[1]._d == 1):
        return True
    raise TransportNetworkException()


contract(MODE + "TransportModeManager.is_valid_to_assignment_step", "spec_is_valid_to_assignment_step", "C09",
         requires="mgr_ok", args=[MGR])
