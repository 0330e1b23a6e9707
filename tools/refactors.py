"""behaviour-preserving edits: every check has to stay quiet on them (run with tools/refac.py)"""
import re
D, G, C, F = "src/detail.rs", "src/gerg2008.rs", "src/composition.rs", "src/ffi.rs"
R = {}


def r(name, *edits):
    """edits: (file, old, new) or (file, function)"""
    R[name] = edits


def between(s, a, b):
    i = s.index(a)
    return i, s.index(b, i)


NAMES = "methane nitrogen carbon_dioxide ethane propane isobutane n_butane isopentane n_pentane hexane heptane octane nonane decane hydrogen oxygen carbon_monoxide water hydrogen_sulfide helium argon".split()

# ---- composition
r("comp-fold", (C, lambda s: s.replace(s[slice(*between(s, "        self.methane\n            + self.nitrogen", "    }\n\n    /// Normalizes"))],
  "        self.fractions().iter().fold(0.0, |acc, x| acc + x)\n").replace("impl Composition {\n", "impl Composition {\n    fn fractions(&self) -> [f64; 21] {\n        [" + ", ".join("self." + n for n in NAMES) + "]\n    }\n\n", 1)))
r("comp-itersum", (C, lambda s: s.replace(s[slice(*between(s, "        self.methane\n            + self.nitrogen", "    }\n\n    /// Normalizes"))],
  "        [" + ", ".join("self." + n for n in NAMES) + "].iter().sum()\n")))
r("comp-normalize-early", (C, "        if sum > 0.0 {\n            let factor = 1.0 / sum;\n", "        if sum.is_nan() || sum <= 0.0 {\n            return Err(CompositionError::Empty);\n        }\n        {\n            let factor = sum.recip();\n"),
  (C, "            self.argon *= factor;\n        } else {\n            return Err(CompositionError::Empty);\n        }\n        Ok(())", "            self.argon *= factor;\n        }\n        Ok(())"))
r("comp-normalize-div", (C, lambda s: re.sub(r"(self\.\w+) \*= factor;", r"\1 /= sum;", s).replace("            let factor = 1.0 / sum;\n", "")))
r("comp-normalize-loop", (C, lambda s: s.replace(s[slice(*between(s, "            self.methane *= factor;", "        } else {\n            return Err(CompositionError::Empty)"))],
  "            for v in [" + ", ".join("&mut self." + n for n in NAMES) + "] {\n                *v *= factor;\n            }\n")))
r("comp-check-match", (C, lambda s: s.replace(s[slice(*between(s, "        if (self.sum() - 0.0).abs()", "    }\n}\n\n/// Error"))],
  "        let total = self.sum();\n        let (empty, off) = (total.abs() < 1.0e-10, (total - 1.0).abs());\n        match (empty, off <= 1.0e-2) {\n            (true, _) => Err(CompositionError::Empty),\n            (false, true) => Ok(()),\n            (false, false) => Err(CompositionError::BadSum),\n        }\n")))
r("comp-check-range", (C, "        if !((self.sum() - 1.0).abs() <= 1.0e-2) {\n            return Err(CompositionError::BadSum);\n        }\n        Ok(())", "        let off = (1.0 - self.sum()).abs();\n        if off <= Self::TOLERANCE { Ok(()) } else { Err(CompositionError::BadSum) }"),
  (C, "impl Composition {\n", "impl Composition {\n    const TOLERANCE: f64 = 1.0e-2;\n\n"))
# ---- set_composition
r("setcomp-array", (D, lambda s: s.replace(s[slice(*between(s, "        self.x[0] = comp.methane;", "        Ok(())\n    }\n\n    /// Calculates molar"))],
  "        self.x = [" + ", ".join("comp." + n for n in NAMES) + "];\n\n")))
r("setcomp-ifletelse", (G, "        comp.check()?;\n", "        if let Err(e) = comp.check() {\n            return Err(e);\n        }\n"), (D, "        comp.check()?;\n", "        match comp.check() {\n            Ok(()) => (),\n            Err(e) => return Err(e),\n        }\n"))
r("setcomp-slice", (G, lambda s: s.replace(s[slice(*between(s, "        self.x[1] = comp.methane;", "        Ok(())\n    }\n\n    /// Calculates the molar"))],
  "        let fractions = [" + ", ".join("comp." + n for n in NAMES) + "];\n        self.x[1..=NC_GERG].copy_from_slice(&fractions);\n\n")))
# ---- molar mass
r("mm-zip-sum", (D, lambda s: s.replace(s[slice(*between(s, "        let mut mm = 0.0;\n        for (i, item) in MMI", "        self.mm = mm;"))], "        let mm: f64 = self.x.iter().zip(MMI.iter()).map(|(x, m)| x * m).sum();\n")),
  (G, lambda s: s.replace(s[slice(*between(s, "        self.mm = 0.0;\n        for (i, mmi_gerg)", "    }\n\n    /// Calculate pressure"))], "        self.mm = (1..=NC_GERG).map(|i| self.x[i] * MMI_GERG[i]).fold(0.0, |acc, v| acc + v);\n")))
r("mm-while", (D, lambda s: s.replace(s[slice(*between(s, "        let mut mm = 0.0;\n        for (i, item) in MMI", "        self.mm = mm;"))], "        let mut mm = 0.0;\n        let mut i = 0;\n        while i < MMI.len() {\n            mm += MMI[i] * self.x[i];\n            i += 1;\n        }\n")))
r("mm-skip-zero", (D, "            mm += self.x[i] * item;", "            if self.x[i] == 0.0 {\n                continue;\n            }\n            mm += self.x[i] * item;"))
# ---- ideal gas
r("a0-hyp-helper", (D, "                        hsn = (ep - em) / 2.0;\n                        hcn = (ep + em) / 2.0;\n", "                        (hsn, hcn) = hyperbolic(ep, em);\n"),
  (D, lambda s: s + "\nfn hyperbolic(ep: f64, em: f64) -> (f64, f64) {\n    (0.5 * (ep - em), 0.5 * (ep + em))\n}\n"))
r("a0-sinh", (G, "                        ep = th0t.exp();\n                        em = 1.0 / ep;\n                        hsn = (ep - em) / 2.0;\n                        hcn = (ep + em) / 2.0;\n", "                        hsn = th0t.sinh();\n                        hcn = th0t.cosh();\n"),
  (G, "        let mut em: f64;\n        let mut ep: f64;\n", ""))
r("a0-max", (G, "        let logd = if self.d > EPSILON {\n            self.d.ln()\n        } else {\n            EPSILON.ln()\n        };", "        let logd = self.d.max(EPSILON).ln();"))
r("a0-locals", (D, "        self.a0[0] = self.a0[0] * RDETAIL * self.t;\n        self.a0[1] *= RDETAIL;\n        self.a0[2] *= RDETAIL;", "        let scale = [RDETAIL * self.t, RDETAIL, RDETAIL];\n        for (a, k) in self.a0.iter_mut().zip(scale) {\n            *a *= k;\n        }"))
r("a0-fill", (D, "        self.a0[0] = 0.0;\n        self.a0[1] = 0.0;\n        self.a0[2] = 0.0;\n", "        self.a0.fill(0.0);\n"), (G, "        self.a0[0] = 0.0;\n        self.a0[1] = 0.0;\n        self.a0[2] = 0.0;\n", "        self.a0 = [0.0; 3];\n"))
# ---- residual
r("xterms-any", (D, lambda s: s.replace(s[slice(*between(s, "        // Check to see if a component fraction has changed.", "        self.k3 = 0.0;\n        let mut u"))], "        if self.x.iter().zip(self.xold.iter()).all(|(a, b)| a == b) {\n            return;\n        }\n        self.xold = self.x;\n\n")))
r("xterms-eq", (D, lambda s: s.replace(s[slice(*between(s, "        // Check to see if a component fraction has changed.", "        self.k3 = 0.0;\n        let mut u"))], "        if self.x == self.xold {\n            return;\n        }\n        self.xold = self.x;\n\n")))
r("xterms-helper", (D, "        // Third virial and higher coefficients\n", "        self.virial(u, g, q, f);\n    }\n\n    fn virial(&mut self, u: f64, g: f64, q: f64, f: f64) {\n        // Third virial and higher coefficients\n"))
r("xterms-continue", (D, "        for (i, xi) in self.x.iter().enumerate() {\n            if xi > &0.0 {\n                for (j, xj) in self.x.iter().enumerate().skip(i + 1) {\n                    if xj > &0.0 {\n", "        for i in 0..NC {\n            let xi = self.x[i];\n            if xi <= 0.0 {\n                continue;\n            }\n            {\n                for j in i + 1..NC {\n                    let xj = self.x[j];\n                    if xj > 0.0 {\n"))
r("xterms-locals", (D, lambda s: s.replace("        for n in 0..18 {\n            self.bs[n] = 0.0;\n        }\n", "        let mut bs = [0.0; 18];\n").replace("self.bs[n] += xi2", "bs[n] += xi2").replace("self.bs[n] += xij", "bs[n] += xij").replace("        // Third virial and higher", "        self.bs = bs;\n        // Third virial and higher")))
r("alphar-zero", (D, "        for i in 0..4 {\n            for j in 0..4 {\n                self.ar[i][j] = 0.0;\n            }\n        }\n", "        self.ar = Default::default();\n"), (G, "        for i in 0..=3 {\n            for j in 0..=3 {\n                self.ar[i][j] = 0.0;\n            }\n        }\n", "        self.ar.iter_mut().for_each(|row| row.fill(0.0));\n"))
r("alphar-tun-always", (D, "        if self.t != self.told {\n            for (i, item) in UN.iter().enumerate() {\n                self.tun[i] = self.t.powf(-item);\n            }\n        }\n", "        for (tun, un) in self.tun.iter_mut().zip(UN.iter()) {\n            *tun = self.t.powf(-un);\n        }\n"))
r("alphar-local-sums", (D, "            self.ar[0][0] += rt * s0;\n            self.ar[0][1] += rt * s1;\n            self.ar[0][2] += rt * s2;\n            self.ar[0][3] += rt * s3;\n", "            for (a, v) in self.ar[0].iter_mut().zip([s0, s1, s2, s3]) {\n                *a += rt * v;\n            }\n"))
r("alphar-split-loop", (D, "        for n in 0..58 {\n            // Density derivatives\n", "        // the virial part and the rest\n        for n in (0..18).chain(18..58) {\n            // Density derivatives\n"))
r("alphar-exp-powi", (D, "        for n in 1..10 {\n            dknn[n] = dred * dknn[n - 1];\n        }\n", "        for (n, v) in dknn.iter_mut().enumerate().skip(1) {\n            *v = dred.powi(n as i32);\n        }\n"))
r("gerg-alphar-helpers", (G, "        // Calculate mixture contributions\n        for i in 1..NC_GERG {", "        self.mixture_terms(itau, del, lntau, &delp);\n    }\n\n    fn mixture_terms(&mut self, itau: i32, del: f64, lntau: f64, delp: &[f64; 8]) {\n        let mut ex: f64;\n        let mut ex2: f64;\n        let mut cij0: f64;\n        let mut eij0: f64;\n        let mut ndt: f64;\n        let mut ndtd: f64;\n        let mut ndtt: f64;\n        let mut xijf: f64;\n        // Calculate mixture contributions\n        for i in 1..NC_GERG {"),
  (G, "        let mut cij0: f64;\n        let mut eij0: f64;\n        let mut ndt: f64;\n        let mut ndtd: f64;\n        let mut ndtt: f64;\n        let mut xijf: f64;\n        let mut delp", "        let mut ndt: f64;\n        let mut ndtd: f64;\n        let mut ndtt: f64;\n        let mut delp"))
r("gerg-no-tcache", (G, "        if self.t != self.told || tr != self.trold2 {\n            self.tterms(lntau);\n        }\n", "        self.tterms(lntau);\n"))
r("gerg-present-arr", (G, "        for i in 1..=NC_GERG {\n            if self.x[i] > EPSILON {\n                for k in 1..=KPOL[i] {", "        let x = self.x;\n        for (i, _) in x.iter().enumerate().filter(|(i, x)| *i > 0 && **x > EPSILON) {\n            {\n                for k in 1..=KPOL[i] {"))
r("gerg-reduce-early", (G, "        if vr > EPSILON {\n            dr = 1.0 / vr;\n        }\n        self.drold = dr;", "        dr = if vr > EPSILON { vr.recip() } else { dr };\n        self.drold = dr;"))
r("gerg-fij-hoist", (G, "                        let mn = MNUMB[i][j];\n                        if mn > 0 {\n                            xijf = self.x[i] * self.x[j] * FIJ[i][j];", "                        let mn = MNUMB[i][j];\n                        if mn == 0 {\n                            continue;\n                        }\n                        {\n                            xijf = FIJ[i][j] * self.x[j] * self.x[i];"))
# ---- properties
r("props-helper", (D, "        self.w = 1000.0 * self.cp / self.cv * self.dp_dd / mm;\n        if self.w < 0.0 {\n            self.w = 0.0;\n        }\n        self.w = self.w.sqrt();\n", "        self.w = speed_of_sound(self.cp / self.cv * self.dp_dd * 1000.0 / mm);\n"),
  (D, lambda s: s + "\n/// square root, zero for negative squares\nfn speed_of_sound(w2: f64) -> f64 {\n    if w2 < 0.0 {\n        return 0.0;\n    }\n    w2.sqrt()\n}\n"))
r("props-wmax", (G, "        if self.w < 0.0 {\n            self.w = 0.0;\n        }\n        self.w = self.w.sqrt();", "        let w2 = self.w;\n        self.w = if w2 >= 0.0 || w2.is_nan() { w2.sqrt() } else { 0.0 };"))
r("props-order", (G, "        self.a = rt * self.a0[0] + self.ar[0][0];\n        self.g = rt * (1.0 + self.ar[0][1] + self.a0[0] + self.ar[0][0]);\n        self.u = rt * (self.a0[1] + self.ar[1][0]);\n        self.h = rt * (1.0 + self.ar[0][1] + self.a0[1] + self.ar[1][0]);\n", "        self.u = rt * (self.a0[1] + self.ar[1][0]);\n        self.h = self.u + rt * self.z;\n        self.a = rt * self.a0[0] + self.ar[0][0];\n        self.g = rt * (self.z + (self.a0[0] + self.ar[0][0]));\n"))
r("props-early-branch", (D, "        if self.d > EPSILON {\n            self.h = self.u", "        let dilute = !(self.d > EPSILON);\n        if !dilute {\n            self.h = self.u"))
r("props-pressure-shared", (D, "        let rt = RDETAIL * self.t;\n        self.z = 1.0 + self.ar[0][1] / rt;\n        self.p = self.d * rt * self.z;\n        self.dp_dd = rt + 2.0 * self.ar[0][1] + self.ar[0][2];\n", "        let rt = RDETAIL * self.t;\n        (self.z, self.p, self.dp_dd) = self.equation_of_state();\n"),
  (D, "        self.z = 1.0 + self.ar[0][1] / RDETAIL / self.t; // ar(0,1) is the first derivative of alpha(r) with respect to density\n        let p = self.d * RDETAIL * self.t * self.z;\n        self.dp_dd_save = RDETAIL * self.t + 2.0 * self.ar[0][1] + self.ar[0][2]; // d(P)/d(D) for use in density iteration\n        p\n    }\n", "        let (z, p, slope) = self.equation_of_state();\n        self.z = z;\n        self.dp_dd_save = slope;\n        p\n    }\n\n    fn equation_of_state(&self) -> (f64, f64, f64) {\n        let rt = RDETAIL * self.t;\n        let z = 1.0 + self.ar[0][1] / rt;\n        (z, self.d * rt * z, rt + 2.0 * self.ar[0][1] + self.ar[0][2])\n    }\n"))
r("pressure-rename", (G, lambda s: s.replace("dpddsave", "slope_of_last_trial")), (D, lambda s: re.sub(r"\bar\b(?=[\[:])", "residual", s).replace("self.ar[", "self.residual[")))
# ---- density
r("dens-while", (D, "        for _it in 0..20 {", "        let mut trials = 0;\n        while trials < 20 {\n            trials += 1;"))
r("dens-countdown", (D, "        for _it in 0..20 {", "        for _left in (1..=20).rev() {"))
r("dens-fail-helper", (D, lambda s: s.replace("                self.d = self.p / RDETAIL / self.t;\n                return Err(DensityError::IterationFail);", "                return self.give_up();").replace("        self.d = self.p / RDETAIL / self.t;\n        Err(DensityError::IterationFail)\n    }\n", "        self.give_up()\n    }\n\n    fn give_up(&mut self) -> Result<(), DensityError> {\n        self.d = self.p / RDETAIL / self.t;\n        Err(DensityError::IterationFail)\n    }\n")))
r("dens-continue", (D, "            if self.dp_dd_save < EPSILON || p2 < EPSILON {\n                vlog += 0.1;\n            } else {\n", "            if self.dp_dd_save < EPSILON || p2 < EPSILON {\n                vlog += 0.1;\n                continue;\n            }\n            {\n"))
r("dens-step-helper", (D, "                dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]\n                vdiff = (p2.ln() - plog) * p2 / dpdlv;\n", "                vdiff = self.step(p2, plog);\n"), (D, "        let mut dpdlv: f64;\n", ""),
  (D, "    /// Calculate pressure as a function of temperature and density.\n", "    fn step(&self, p2: f64, plog: f64) -> f64 {\n        let dpdlv = -self.d * self.dp_dd_save;\n        p2 * (p2.ln() - plog) / dpdlv\n    }\n\n    /// Calculate pressure as a function of temperature and density.\n"))
r("dens-gerg-guess-match", (G, "                if nfail == 1 {\n                    self.d = dcx * 3.0; // If vapor phase search fails, look for root in liquid region\n                } else if nfail == 2 {\n                    self.d = dcx * 2.5; // If liquid phase search fails, look for root between liquid and critical regions\n                } else if nfail == 3 {\n                    self.d = dcx * 2.0; // If search fails, look for root in critical region\n                }\n", "                self.d = dcx\n                    * match nfail {\n                        1 => 3.0,\n                        2 => 2.5,\n                        _ => 2.0,\n                    };\n"))
r("dens-gerg-guess-table", (G, "                if nfail == 1 {\n                    self.d = dcx * 3.0; // If vapor phase search fails, look for root in liquid region\n                } else if nfail == 2 {\n                    self.d = dcx * 2.5; // If liquid phase search fails, look for root between liquid and critical regions\n                } else if nfail == 3 {\n                    self.d = dcx * 2.0; // If search fails, look for root in critical region\n                }\n", "                const GUESS: [f64; 3] = [3.0, 2.5, 2.0];\n                self.d = dcx * GUESS[(nfail - 1) as usize];\n"))
r("dens-gerg-stable-helper", (G, "                            if (self.properties() <= 0.0\n                                || self.dp_dd <= 0.0\n                                || self.d2p_dtd <= 0.0)\n                                || (self.cv <= 0.0 || self.cp <= 0.0 || self.w <= 0.0)\n                            {", "                            if self.unstable() {"),
  (G, "    /// Calculate properties\n    pub fn properties", "    fn unstable(&mut self) -> bool {\n        let p = self.properties();\n        [p, self.dp_dd, self.d2p_dtd, self.cv, self.cp, self.w].iter().any(|v| *v <= 0.0)\n    }\n\n    /// Calculate properties\n    pub fn properties"))
r("dens-gerg-bool", (G, lambda s: s.replace("let mut ifail: i32 = 0;", "let mut retry = false;").replace("ifail == 1", "retry").replace("ifail = 0;", "retry = false;").replace("ifail = 1;", "retry = true;")))
r("dens-gerg-vinc", (G, "                if it > 5 {\n                    vinc /= 2.0;\n                }\n                if it > 10 && it < 20 {\n                    vinc /= 5.0;\n                }\n", "                vinc /= match it {\n                    0..=5 => 1.0,\n                    11..=19 => 10.0,\n                    _ => 2.0,\n                };\n"))
# ---- ffi
r("ffi-asref", (F, lambda s: re.sub(r"        assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;\n        (\w+)\.(p|t|d)\n", "        match ptr.as_ref() {\n            Some(\\1) => \\1.\\3,\n            None => panic!(\"null handle\"),\n        }\n", s)))
r("ffi-helper", (F, lambda s: re.sub(r"        assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;\n", r"        let \1 = handle(ptr);\n", s) + "\n/// the model behind a handle\nunsafe fn handle<'a, T>(ptr: *mut T) -> &'a mut T {\n    assert!(!ptr.is_null(), \"null handle\");\n    &mut *ptr\n}\n"),
  (F, lambda s: s.replace("let aga8 = handle(", "let aga8 = super::handle(").replace("let gerg = handle(", "let gerg = super::handle(")))
r("ffi-expect", (F, lambda s: re.sub(r"        assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;\n", "        let \\1 = ptr.as_mut().expect(\"null handle\");\n", s)))
r("ffi-status-helper", (F, lambda s: re.sub(r"        match (\w+)\.density\((.*?)\) \{\n            Ok\(_\) => \*_err = DensityError::Ok,\n            Err\(e\) => \*_err = e,\n        \}\n", r"        *_err = \1.density(\2).err().unwrap_or(DensityError::Ok);\n", s)))
r("ffi-status-ifelse", (F, lambda s: re.sub(r"        match (\w+)\.set_composition\(composition\) \{\n            Ok\(_\) => \*_err = CompositionError::Ok,\n            Err\(e\) => \*_err = e,\n        \}\n", r"        *_err = if let Err(e) = \1.set_composition(composition) {\n            e\n        } else {\n            CompositionError::Ok\n        };\n", s)))
r("ffi-from", (F, lambda s: re.sub(r"        Properties \{\n            d: (\w+)\.d,.*?\n        \}\n", lambda m: "        Properties::from(%s)\n" % m[1], s, flags=re.S) + "".join(
    "\nimpl From<&%s> for Properties {\n    fn from(m: &%s) -> Self {\n        Properties { d: m.d, mm: m.mm, z: m.z, dp_dd: m.dp_dd, d2p_dd2: m.d2p_dd2, dp_dt: m.dp_dt, u: m.u, h: m.h, s: m.s, cv: m.cv, cp: m.cp, w: m.w, g: m.g, jt: m.jt, kappa: m.kappa }\n    }\n}\n" % (t, t) for t in ("crate::detail::Detail", "crate::gerg2008::Gerg2008"))))
r("ffi-free-if", (F, lambda s: re.sub(r"        if ptr\.is_null\(\) \{\n            return;\n        \}\n        drop\(Box::from_raw\(ptr\)\);", "        if !ptr.is_null() {\n            let _model = Box::from_raw(ptr);\n        }", s)))
r("ffi-new-local", (F, lambda s: re.sub(r"        Box::into_raw\(Box::new\((\w+)::new\(\)\)\)", r"        let model = Box::new(\1::new());\n        Box::leak(model)", s)))
# ---- constants and constructors
r("const-static", (D, lambda s: re.sub(r"^const (\w+): \[", r"static \1: [", s, flags=re.M)), (G, lambda s: re.sub(r"^const (\w+): \[", r"static \1: [", s, flags=re.M)))
r("new-functional", (D, "        let mut item = Self::zeroed();\n        item.setup();\n        item\n", "        let mut model = Box::new(Self::zeroed());\n        model.setup();\n        *model\n"))
r("setup-order", (D, "        for i in 0..MAXFLDS {\n            self.ki25[i] = KI[i].powf(2.5);\n            self.ei25[i] = EI[i].powf(2.5);\n        }\n", "        for (k, v) in self.ki25.iter_mut().zip(&KI) {\n            *k = v * v * v.sqrt();\n        }\n        self.ei25 = EI.map(|e| e.powf(2.5));\n"))
r("dead-code", (D, "    pub fn pressure(&mut self) -> f64 {\n", "    pub fn pressure(&mut self) -> f64 {\n        let _unused = self.t;\n        debug_assert!(NTERMS == 58);\n"), (G, "    pub fn pressure(&mut self) -> f64 {\n", "    pub fn pressure(&mut self) -> f64 {\n        let _ = (self.t, self.d);\n"))

# ---- second batch: other styles of the same code
def sub(a, b, count=0, flags=re.S):
    def f(s):
        t, n = re.subn(a, b, s, count=count, flags=flags)
        return t if n else s
    return f


def chain(*fs):
    def f(s):
        for g in fs:
            t = g(s)
            if t == s:
                _fail(g)
            s = t
        return s
    return f


def _fail(g):
    raise ValueError("edit does not apply")


def rep(a, b):
    def f(s):
        if a not in s:
            raise ValueError("edit does not apply: " + a[:50])
        return s.replace(a, b)
    return f


def cut(a, b, new):
    def f(s):
        i, j = between(s, a, b)
        return s[:i] + new + s[j:]
    return f


ALL = ", ".join(NAMES)
r("b-comp-destructure", (C, cut("        self.methane\n            + self.nitrogen", "    }\n\n    /// Normalizes", "        let Composition { %s } = *self;\n        %s\n" % (ALL, " + ".join(NAMES)))))
r("b-comp-struct", (C, cut("            self.methane *= factor;", "        } else {\n            return Err(CompositionError::Empty)", "            *self = Composition {\n%s            };\n" % "".join("                %s: self.%s * factor,\n" % (n, n) for n in NAMES))))
r("b-comp-foreach", (C, chain(cut("            self.methane *= factor;", "        } else {\n            return Err(CompositionError::Empty)", "            self.fractions_mut().into_iter().for_each(|v| *v *= factor);\n"),
  rep("impl Composition {\n", "impl Composition {\n    fn fractions_mut(&mut self) -> [&mut f64; 21] {\n        [" + ", ".join("&mut self." + n for n in NAMES) + "]\n    }\n\n"))))
r("b-comp-check-iflet", (C, cut("        if (self.sum() - 0.0).abs()", "    }\n}\n\n/// Error", "        let sum = self.sum();\n        let verdict = if sum.abs() < 1.0e-10 {\n            Some(CompositionError::Empty)\n        } else if (0.99..=1.01).contains(&sum) || (sum - 1.0).abs() <= 1.0e-2 {\n            None\n        } else {\n            Some(CompositionError::BadSum)\n        };\n        verdict.map_or(Ok(()), Err)\n")))
r("b-comp-norm-guard", (C, chain(rep("        if sum > 0.0 {\n            let factor = 1.0 / sum;\n", "        let factor = match sum {\n            s if s > 0.0 => 1.0 / s,\n            _ => return Err(CompositionError::Empty),\n        };\n"),
  rep("            self.argon *= factor;\n        } else {\n            return Err(CompositionError::Empty);\n        }\n        Ok(())", "            self.argon *= factor;\n        Ok(())"))))
r("b-setcomp-from", (D, chain(cut("        self.x[0] = comp.methane;", "        Ok(())\n    }\n\n    /// Calculates molar", "        self.x = comp.into();\n"))),
  (C, lambda s: s + "\nimpl From<&Composition> for [f64; 21] {\n    fn from(c: &Composition) -> Self {\n        [" + ", ".join("c." + n for n in NAMES) + "]\n    }\n}\n"))
r("b-setcomp-andthen", (D, chain(rep("        comp.check()?;\n\n        self.x[0] = comp.methane;", "        comp.check().map(|()| self.store(comp))\n    }\n\n    fn store(&mut self, comp: &Composition) {\n        self.x[0] = comp.methane;"), rep("        self.x[20] = comp.argon;\n\n        Ok(())\n    }", "        self.x[20] = comp.argon;\n    }"))))
r("b-mm-iter-method", (D, cut("        let mut mm = 0.0;\n        for (i, item) in MMI", "    // Calculate terms dependent", "        self.mm = weighted(&self.x, &MMI);\n        self.mm\n    }\n\n")),
  (D, lambda s: s + "\nfn weighted(a: &[f64], b: &[f64]) -> f64 {\n    std::iter::zip(a, b).map(|(a, b)| a * b).sum()\n}\n"))
r("b-mm-index", (G, cut("        self.mm = 0.0;\n        for (i, mmi_gerg)", "    }\n\n    /// Calculate pressure", "        let mut mm = 0.0;\n        for i in (1..=NC_GERG).rev() {\n            mm = self.x[i] * MMI_GERG[i] + mm;\n        }\n        self.mm = mm;\n")))
r("b-xterms-changed-fn", (D, chain(cut("        // Check to see if a component fraction has changed.", "        self.k3 = 0.0;\n        let mut u", "        if !self.composition_changed() {\n            return;\n        }\n\n"),
  rep("    // Calculate terms dependent only on composition\n", "    fn composition_changed(&mut self) -> bool {\n        let changed = self.x != self.xold;\n        if changed {\n            self.xold.copy_from_slice(&self.x);\n        }\n        changed\n    }\n\n    // Calculate terms dependent only on composition\n"))))
r("b-xterms-iter-any", (D, cut("        let mut icheck = 0;", "        self.k3 = 0.0;\n        let mut u", "        let changed = (0..NC).any(|i| self.x[i] != self.xold[i]);\n        self.xold = self.x;\n        if !changed {\n            return;\n        }\n\n")))
r("b-xterms-split", (D, chain(rep("        // Binary pair contributions\n", "        self.pairs(&mut u, &mut g);\n        self.k3 = self.k3.powf(0.6);\n        u = u.powf(0.2);\n"),
  lambda s: (lambda i, j: s[:i] + s[j:].replace("        self.k3 = self.k3.powf(0.6);\n        u = u.powf(0.2);\n", "", 1).replace("    fn alpha0_detail(", "    // Binary pair contributions\n    fn pairs(&mut self, u: &mut f64, g: &mut f64) {\n" + s[i:j].replace("                        u +=", "                        *u +=").replace("                        g +=", "                        *g +=").replace("xij = 2.0", "let xij = 2.0") + "    }\n\n    fn alpha0_detail(", 1))(
      s.index("        for (i, xi) in self.x.iter().enumerate() {\n"), s.index("        self.k3 = self.k3.powf(0.6);\n        u = u.powf(0.2);\n\n")))), (D, rep("        let mut xij: f64;\n", "")))
r("b-xterms-bs-zip", (D, chain(rep("                for n in 0..18 {\n                    self.bs[n] += xi2 * self.bsnij2[i][i][n]; // Pure fluid contributions to second virial coefficient\n                }\n", "                for (b, v) in self.bs.iter_mut().zip(self.bsnij2[i][i].iter()) {\n                    *b += xi2 * v;\n                }\n"), rep("        for n in 0..18 {\n            self.bs[n] = 0.0;\n        }\n", "        self.bs.iter_mut().for_each(|b| *b = 0.0);\n"))))
r("b-xterms-csn-if", (D, cut("            self.csn[n] = AN[n] * u.powf(UN[n]);", "        }\n    }\n\n    fn alpha0_detail", "            let mut c = AN[n] * u.powf(UN[n]);\n            c *= if GN[n] == 1 { g } else { 1.0 };\n            c *= if QN[n] == 1 { q2 } else { 1.0 };\n            c *= if FN[n] == 1 { f } else { 1.0 };\n            self.csn[n] = c;\n")))
r("b-xterms-csn-powi", (D, cut("            self.csn[n] = AN[n] * u.powf(UN[n]);", "        }\n    }\n\n    fn alpha0_detail", "            self.csn[n] = AN[n] * u.powf(UN[n]) * g.powi(GN[n]) * q2.powi(QN[n]) * f.powi(FN[n]);\n")))
r("b-powi-mul", (D, chain(rep("let q2 = q.powi(2);", "let q2 = q * q;"), rep("xi2 = x.powi(2);", "xi2 = x * x;"), rep("(th0t / hsn).powi(2)", "th0t * th0t / (hsn * hsn)"), rep("self.t * (self.dp_dt / self.d).powi(2) / self.dp_dd", "self.t * self.dp_dt * self.dp_dt / (self.d * self.d) / self.dp_dd"))))
r("b-a0-match", (D, chain(rep("                        if j == 3 || j == 5 {\n                            loghyp", "                        if let 3 | 5 = j {\n                            loghyp"))))
r("b-a0-pairs", (G, chain(rep("                for (j, th0ij) in th0i.iter().enumerate().take(8).skip(4) {\n                    if th0ij > &EPSILON {\n", "                for j in [4, 5, 6, 7] {\n                    let th0ij = th0i[j];\n                    if th0ij > EPSILON {\n"), rep("                        if j == 4 || j == 6 {", "                        if j % 2 == 0 {"))))
r("b-a0-tuple-helper", (D, chain(
  lambda s: (lambda i, j: s[:i] + "                let (sumhyp0, sumhyp1, sumhyp2) = self.vibrations(i);\n" + s[j:].replace("    fn alphar(&mut self, itau", "    fn vibrations(&self, i: usize) -> (f64, f64, f64) {\n        let mut loghyp: f64;\n        let mut th0t: f64;\n        let mut sumhyp0;\n        let mut sumhyp1;\n        let mut sumhyp2;\n        let (mut ep, mut em, mut hsn, mut hcn);\n" + s[i:j] + "        (sumhyp0, sumhyp1, sumhyp2)\n    }\n\n    fn alphar(&mut self, itau", 1))(
      s.index("                sumhyp0 = 0.0;\n"), s.index("                self.a0[0] += x\n")))))
r("b-alphar-nodel", (D, chain(rep("fn alphar(&mut self, itau: i32, _idel: i32)", "fn alphar(&mut self, with_temperature: bool)"), rep("if itau > 0 {", "if with_temperature {"), rep("self.alphar(0, 2)", "self.alphar(false)"), rep("self.alphar(2, 3)", "self.alphar(true)"))))
r("b-gerg-alphar-enum", (G, chain(rep("fn alphar(&mut self, itau: i32)", "fn alphar(&mut self, order: Order)"), rep("if itau > 0 {", "if matches!(order, Order::Full) {"), rep("self.alphar(0)", "self.alphar(Order::Density)"), rep("self.alphar(1)", "self.alphar(Order::Full)"), lambda s: s + "\n#[derive(Clone, Copy)]\nenum Order {\n    Density,\n    Full,\n}\n")))
r("b-alphar-merge", (D, lambda s: (lambda i: s[:i].rstrip()[:-1].rstrip() + "\n" + s[i + len("        for n in 0..58 {\n            // Density derivatives\n"):])(s.index("        for n in 0..58 {\n            // Density derivatives\n"))))
r("b-alphar-ranges", (D, rep("        for n in 0..58 {\n            // Density derivatives\n", "        for n in 0..NTERMS {\n            if n < 12 && sumb[n] == 0.0 {\n                continue;\n            }\n            // Density derivatives\n")))
r("b-alphar-acc", (D, chain(rep("        for n in 0..58 {\n            // Density derivatives\n", "        let mut ar = [[0.0; 4]; 4];\n        for n in 0..58 {\n            // Density derivatives\n"),
  lambda s: (lambda i, j: s[:i] + s[i:j].replace("self.ar[", "ar[") + "        self.ar = ar;\n" + s[j:])(s.index("            // Density derivatives\n"), s.index("    }\n\n    /// Calculate density as a function")))))
r("b-cache-option", (D, chain(rep("    told: f64,\n", "    told: Option<f64>,\n"), rep("            told: 0.0,\n", "            told: None,\n"), rep("if self.t != self.told {", "if self.told != Some(self.t) {"), rep("self.told = self.t;", "self.told = Some(self.t);"))))
r("b-cache-struct", (D, chain(rep("    told: f64,\n", "    powers: Powers,\n"), rep("            told: 0.0,\n", "            powers: Powers { t: 0.0, tun: [0.0; NTERMS] },\n"), rep("    tun: [f64; NTERMS],\n", ""), rep("            tun: [0.0; NTERMS],\n", ""), rep("self.told", "self.powers.t"), rep("self.tun", "self.powers.tun"), lambda s: s + "\n/// powers of temperature\nstruct Powers {\n    t: f64,\n    tun: [f64; NTERMS],\n}\n")))
r("b-cache-method", (D, chain(cut("        if self.t != self.told {\n", "        // Precalculation of common powers", "        self.update_powers();\n\n"), rep("    fn alphar(&mut self, itau", "    fn update_powers(&mut self) {\n        if self.t == self.told {\n            return;\n        }\n        self.told = self.t;\n        for (tun, un) in self.tun.iter_mut().zip(UN) {\n            *tun = self.told.powf(-un);\n        }\n    }\n\n    fn alphar(&mut self, itau"))))
r("b-gerg-iter-x", (G, rep("        for i in 1..=NC_GERG {\n            if self.x[i] > EPSILON {\n                for k in 1..=KPOL[i] {", "        for (i, &xi) in self.x.clone().iter().enumerate().skip(1) {\n            if xi > EPSILON {\n                for k in 1..=KPOL[i] {")))
r("b-gerg-delp-fromfn", (G, chain(cut("        delp[1] = del;\n", "        // If temperature has changed, calculate", "        for i in 1..8 {\n            delp[i] = del.powi(i as i32);\n        }\n        for (e, p) in expd.iter_mut().zip(delp.iter()).skip(1) {\n            *e = f64::exp(-p);\n        }\n\n"))))
r("b-gerg-fromfn", (G, chain(cut("        delp[1] = del;\n", "        // If temperature has changed, calculate", "        let delp: [f64; 8] = std::array::from_fn(|i| if i == 0 { 0.0 } else { del.powi(i as i32) });\n        let expd = delp.map(|p| (-p).exp());\n\n"), rep("        let mut delp: [f64; 7 + 1] = [0.0; 7 + 1];\n        let mut expd: [f64; 7 + 1] = [0.0; 7 + 1];\n", ""))))
r("b-gerg-tterms-matches", (G, rep("if i > 4 && i != 15 && i != 18 && i != 20 {", "if !matches!(i, 1..=4 | 15 | 18 | 20) {")))
r("b-gerg-tterms-all", (G, rep("                if i > 4 && i != 15 && i != 18 && i != 20 {\n                    for (k, taup) in taup0.iter().enumerate().skip(1) {\n                        self.taup[i][k] = NOIK[i][k] * taup;\n                    }\n                } else {\n                    for", "                {\n                    for")))
r("b-gerg-pure-helper", (G, chain(rep("                    ndt = self.x[i] * delp[self.doik[i][k]] * self.taup[i][k];\n                    ndtd = ndt * self.doik[i][k] as f64;", "                    let di = f64::from(self.doik[i][k] as u32);\n                    ndt = self.x[i] * delp[self.doik[i][k]] * self.taup[i][k];\n                    ndtd = di * ndt;"))))
r("b-gerg-add-helper", (G, chain(rep("                    self.ar[0][1] += ndt * ex2;\n                    self.ar[0][2] += ndt * (ex3 - self.coik[i][k] as f64 * ex);\n", "                    add(&mut self.ar[0], 1, ndt * ex2);\n                    add(&mut self.ar[0], 2, ndt * (ex3 - self.coik[i][k] as f64 * ex));\n"), lambda s: s + "\n#[inline]\nfn add(row: &mut [f64; 4], order: usize, v: f64) {\n    row[order] += v;\n}\n")))
r("b-gerg-reduce-cols", (G, chain(rep("        for i in 1..=NC_GERG {\n            if self.x[i] != self.xold[i] {\n                icheck = 1;\n            }\n            self.xold[i] = self.x[i];\n        }\n        if icheck == 0 {", "        if self.x[1..] == self.xold[1..] {"), rep("        self.told = 0.0;\n        self.trold2 = 0.0;\n\n        // Calculate reducing", "        self.xold = self.x;\n        self.told = 0.0;\n        self.trold2 = 0.0;\n\n        // Calculate reducing"), rep("        let mut icheck: i32 = 0;\n", ""))))
r("b-gerg-pseudo-fold", (G, cut("        let mut dcx = 0.0;\n        let mut tcx = 0.0;", "    }\n}\n", "        let (tcx, vcx) = (1..=NC_GERG).fold((0.0, 0.0), |(t, v), i| (t + self.x[i] * TC[i], v + self.x[i] / DC[i]));\n        let dcx = if vcx > EPSILON { 1.0 / vcx } else { 0.0 };\n        (dcx, tcx)\n")))
r("b-gerg-pseudo-d", (G, chain(rep("    fn pseudocriticalpoint(&self) -> (f64, f64) {", "    fn pseudocritical_density(&self) -> f64 {"), rep("        let mut tcx = 0.0;\n        let mut vcx", "        let mut vcx"), rep("            tcx += self.x[i] * TC[i];\n", ""), rep("        (dcx, tcx)\n    }\n}", "        dcx\n    }\n}"), rep("let (dcx, _tcx) = self.pseudocriticalpoint();", "let dcx = self.pseudocritical_density();"))))
r("b-props-mm-last", (G, chain(rep("        self.molar_mass();\n        self.alpha0();\n        self.alphar(1);\n", "        self.alphar(1);\n        self.alpha0();\n"), rep("        self.w = 1000.0 * self.cp / self.cv", "        self.molar_mass();\n        self.w = 1000.0 * self.cp / self.cv"))))
r("b-props-locals", (G, chain(rep("        self.alphar(1);\n\n        let rt = RGERG * self.t;\n", "        self.alphar(1);\n\n        let [a00, a01, a02] = self.a0;\n        let [[r00, r01, r02, r03], [r10, r11, r12, _], [r20, ..], _] = self.ar;\n        let rt = RGERG * self.t;\n"),
  lambda s: (lambda i, j: s[:i] + re.sub(r"self\.ar\[(\d)\]\[(\d)\]", r"r\1\2", re.sub(r"self\.a0\[(\d)\]", r"a0\1", s[i:j])) + s[j:])(s.index("= self.ar;\n        let rt") + 14, s.index("    fn reducingparameters")))))
r("b-props-heat", (D, chain(rep("        if self.d > EPSILON {\n            self.h = self.u", "        self.caloric(a, rt);\n        self.w = 1000.0 * self.cp / self.cv * self.dp_dd / mm;\n        self.w = if self.w < 0.0 { 0.0 } else { self.w.sqrt() };\n        self.kappa = self.w * self.w * mm / (rt * 1000.0 * self.z);\n        self.d2p_dtd = 0.0;\n    }\n\n    fn caloric(&mut self, a: f64, rt: f64) {\n        if self.d > EPSILON {\n            self.h = self.u"), sub(r"(=\(dB/dT\*T-B\)/Cp for an ideal gas, but dB/dT is not calculated here\n        \}\n).*?(    \}\n\})", r"\1\2"))))
r("b-props-gibbs", (D, chain(rep("            self.g = a + self.p / self.d;", "            self.g = self.h - self.t * self.s;"), rep("            self.g = a + rt;", "            self.g = self.h - self.t * self.s;"))))
r("b-props-zrt", (D, chain(rep("            self.h = self.u + self.p / self.d;\n            self.g = a + self.p / self.d;", "            let pv = self.p / self.d;\n            (self.h, self.g) = (self.u + pv, a + pv);"))))
r("b-props-kappa", (G, rep("        self.kappa = self.w.powi(2) * self.mm / (rt * 1000.0 * self.z);", "        self.kappa = self.w * self.w * self.mm / 1000.0 / rt / self.z;")))
r("b-dens-flip", (D, chain(rep("            if self.dp_dd_save < EPSILON || p2 < EPSILON {\n                vlog += 0.1;\n            } else {\n", "            if !(self.dp_dd_save < EPSILON || p2 < EPSILON) {\n"), rep("                    return Ok(()); // Iteration converged\n                }\n            }\n", "                    return Ok(()); // Iteration converged\n                }\n            } else {\n                vlog += 0.1;\n            }\n"))))
r("b-dens-flip-nan", (D, chain(rep("            if self.dp_dd_save < EPSILON || p2 < EPSILON {\n                vlog += 0.1;\n            } else {\n", "            if self.dp_dd_save >= EPSILON && p2 >= EPSILON {\n"), rep("                    return Ok(()); // Iteration converged\n                }\n            }\n", "                    return Ok(()); // Iteration converged\n                }\n            } else {\n                vlog += 0.1;\n            }\n"))))
r("b-dens-sign", (D, chain(rep("vdiff = (p2.ln() - plog) * p2 / dpdlv;\n                vlog -= vdiff;", "vdiff = (plog - p2.ln()) * p2 / dpdlv;\n                vlog += vdiff;"))))
r("b-dens-inline", (D, chain(rep("                dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]\n                vdiff = (p2.ln() - plog) * p2 / dpdlv;\n                vlog -= vdiff;", "                vdiff = -(p2.ln() - plog) * p2 / (self.d * self.dp_dd_save);\n                vlog -= vdiff;"), rep("        let mut dpdlv: f64;\n", ""))))
r("b-dens-range", (D, rep("            if !(-7.0..=100.0).contains(&vlog) {", "            let in_range = vlog >= -7.0 && vlog <= 100.0;\n            if !in_range {")), (G, rep("if !(-7.0..=100.0).contains(&vlog) ||", "if vlog.is_nan() || vlog < -7.0 || vlog > 100.0 ||")))
r("b-dens-wrapper", (D, chain(rep("    pub fn density(&mut self) -> Result<(), DensityError> {\n", "    pub fn density(&mut self) -> Result<(), DensityError> {\n        if self.p.abs() < EPSILON {\n            self.d = 0.0;\n            return Err(DensityError::PressureTooLow);\n        }\n        match self.search() {\n            Some(d) => {\n                self.d = d;\n                Ok(())\n            }\n            None => {\n                self.d = self.p / RDETAIL / self.t;\n                Err(DensityError::IterationFail)\n            }\n        }\n    }\n\n    fn search(&mut self) -> Option<f64> {\n"),
  lambda s: (lambda i, j: s[:i] + re.sub(r"                //ierr = 1.*?return Err\(DensityError::IterationFail\);", "                return None;", re.sub(r"        //ierr = 1[^\n]*\n        self.d = self.p / RDETAIL / self.t;\n        Err\(DensityError::IterationFail\)", "        None", s[i:j].replace("        if self.p.abs() < EPSILON {\n            self.d = 0.0;\n            return Err(DensityError::PressureTooLow);\n        }\n", "").replace("                    self.d = (-vlog).exp();\n                    return Ok(());", "                    return Some((-vlog).exp());")), flags=re.S) + s[j:])(s.index("    fn search(&mut"), s.index("    /// Calculate pressure as a function")))))
r("b-dens-first-fn", (D, chain(rep("        if self.d <= -EPSILON {\n            self.d = self.d.abs(); // If D<0, then use as initial estimate\n        } else {\n            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate\n        }\n", "        self.d = self.first_guess();\n"), rep("    /// Calculate pressure as a function of", "    fn first_guess(&self) -> f64 {\n        if self.d <= -EPSILON {\n            -self.d\n        } else {\n            self.p / RDETAIL / self.t\n        }\n    }\n\n    /// Calculate pressure as a function of"))))
r("b-dens-gerg-loop", (G, chain(rep("        for it in 1..=50 {\n", "        let mut it = 0;\n        while it < 50 {\n            it += 1;\n"))))
r("b-dens-gerg-ideal", (G, chain(rep("self.d = self.p / RGERG / self.t;", "self.d = self.ideal_gas_density();"), rep("    /// Calculate properties\n    pub fn properties", "    fn ideal_gas_density(&self) -> f64 {\n        self.p / RGERG / self.t\n    }\n\n    /// Calculate properties\n    pub fn properties"))))
r("b-dens-gerg-restart", (G, chain(cut("                nfail += 1;\n", "                vlog = -self.d.ln();\n            }\n            self.d", "                self.d = dcx * [3.0, 2.5, 2.0][nfail];\n                nfail += 1;\n"), rep("let mut nfail: i32 = 0;", "let mut nfail: usize = 0;"))))
r("b-dens-gerg-nofail", (G, chain(rep("                    if self.dpddsave < 0.0 {\n                        ifail = 1;\n                    } else {\n", "                    {\n"), rep("        let mut ifail: i32 = 0;\n", ""), rep(" || ifail == 1 {", " {"), rep("                ifail = 0;\n", ""))))
r("b-dens-gerg-mod10", (G, rep("|| it == 20 || it == 30 || it == 40 ||", "|| matches!(it, 20 | 30 | 40) ||")))
r("b-dens-gerg-iflag-match", (G, rep("        if self.d <= -EPSILON {\n            self.d = self.d.abs();\n        } else {\n            self.d = self.p / RGERG / self.t;\n            if iflag == 2 {\n                self.d = dcx * 3.0;\n            }\n        }\n", "        let guess = match (self.d <= -EPSILON, iflag) {\n            (false, 2) => dcx * 3.0,\n            (false, _) => self.p / RGERG / self.t,\n            (true, _) => self.d.abs(),\n        };\n        self.d = guess;\n")))
r("b-ffi-macro", (F, lambda s: re.sub(r"    /// # Safety\n    ///\n    #\[no_mangle\]\n    pub unsafe extern \"C\" fn (\w+_set_\w+)\(ptr: \*mut (\w+), (\w+): f64\) \{\n        assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;\n        \w+\.(\w) = \w+;\n    \}\n", r"    setter!(\1, \2, \5);\n", s).replace("/// # AGA8 detail functions\n", "macro_rules! setter {\n    ($name:ident, $model:ty, $field:ident) => {\n        /// # Safety\n        ///\n        #[no_mangle]\n        pub unsafe extern \"C\" fn $name(ptr: *mut $model, value: f64) {\n            assert!(!ptr.is_null());\n            (*ptr).$field = value;\n        }\n    };\n}\n\n/// # AGA8 detail functions\n", 1)))
r("b-ffi-maporelse", (F, lambda s: re.sub(r"        match (\w+)\.density\((.*?)\) \{\n            Ok\(_\) => \*_err = DensityError::Ok,\n            Err\(e\) => \*_err = e,\n        \}\n", r"        *_err = \1.density(\2).map_or_else(|e| e, |()| DensityError::Ok);\n", s)))
r("b-ffi-status-from", (F, lambda s: re.sub(r"        match (\w+)\.density\((.*?)\) \{\n            Ok\(_\) => \*_err = DensityError::Ok,\n            Err\(e\) => \*_err = e,\n        \}\n", r"        *_err = \1.density(\2).into();\n", s)), ("src/lib.rs", lambda s: s + "\n#[cfg(feature = \"extern\")]\nimpl From<Result<(), DensityError>> for DensityError {\n    fn from(r: Result<(), DensityError>) -> Self {\n        match r {\n            Ok(()) => Self::Ok,\n            Err(e) => e,\n        }\n    }\n}\n"))
r("b-ffi-preset", (F, lambda s: re.sub(r"        match (\w+)\.density\((.*?)\) \{\n            Ok\(_\) => \*_err = DensityError::Ok,\n            Err\(e\) => \*_err = e,\n        \}\n", r"        *_err = DensityError::Ok;\n        if let Err(e) = \1.density(\2) {\n            *_err = e;\n        }\n", s)))
r("b-ffi-as-mut-else", (F, lambda s: re.sub(r"        assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;\n", "        let Some(\\1) = ptr.as_mut() else {\n            panic!(\"null handle\");\n        };\n", s)))
r("b-ffi-nonnull", (F, lambda s: re.sub(r"        assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;\n", "        let \\1 = std::ptr::NonNull::new(ptr).expect(\"null handle\").as_mut();\n", s)))
r("b-ffi-props-method", (F, lambda s: re.sub(r"        Properties \{\n            d: (\w+)\.d,.*?\n        \}\n", lambda m: "        let m = %s;\n        let mut out = Properties { d: m.d, mm: m.mm, z: m.z, dp_dd: 0.0, d2p_dd2: 0.0, dp_dt: 0.0, u: m.u, h: m.h, s: m.s, cv: m.cv, cp: m.cp, w: m.w, g: m.g, jt: m.jt, kappa: m.kappa };\n        out.dp_dd = m.dp_dd;\n        out.d2p_dd2 = m.d2p_dd2;\n        out.dp_dt = m.dp_dt;\n        out\n" % m[1], s, flags=re.S)))
r("b-ffi-new-default", (F, lambda s: re.sub(r"        Box::into_raw\(Box::new\((\w+)::new\(\)\)\)", r"        Box::into_raw(Box::<\1>::default())", s)))
r("b-setup-split", (D, chain(rep("        let mut bsnij: f64;\n\n        for i in 0..MAXFLDS {", "        self.setup_pairs();\n        self.setup_reference_state();\n    }\n\n    fn setup_pairs(&mut self) {\n        let mut bsnij: f64;\n\n        for i in 0..MAXFLDS {"), rep("        // Ideal gas terms\n        const D0", "    }\n\n    fn setup_reference_state(&mut self) {\n        // Ideal gas terms\n        const D0"))))
r("b-setup-table", (D, lambda s: (lambda i, j: (lambda tab: s[:i] + "        self.n0i = N0I;\n\n" + s[j:] + "\nconst N0I: [[f64; 7]; MAXFLDS] = [\n" + "".join("    [%s],\n" % ", ".join(tab.get((a, b), "0.0") for b in range(7)) for a in range(21)) + "];\n")(
    {(int(a), int(b)): v for a, b, v in re.findall(r"self\.n0i\[(\d+)\]\[(\d)\] = ([-\d.]+);", s[i:j])}))(s.index("        self.n0i[0][2] = 4.00088;"), s.index("        let mut bsnij: f64;"))))
r("b-module", (D, lambda s: (lambda i, j: s[:i] + s[j:].replace("", "", 0) + "\n#[path = \"detail_density.rs\"]\nmod density;\n")(s.index("    /// Calculate density as a function of temperature and pressure.\n"), s.index("    /// Calculate pressure as a function of temperature and density.\n"))),
  ("src/detail_density.rs", lambda s: "use super::*;\n\nimpl Detail {\n" + (lambda t: t[t.index("    /// Calculate density as a function of temperature and pressure.\n"):t.index("    /// Calculate pressure as a function of temperature and density.\n")].rstrip())(open("/repo/src/detail.rs").read()) + "\n}\n"))
r("b-shared-newton", (D, chain(rep("                dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]\n                vdiff = (p2.ln() - plog) * p2 / dpdlv;\n", "                vdiff = crate::log_step(p2, plog, self.d, self.dp_dd_save);\n"), rep("        let mut dpdlv: f64;\n", ""))),
  (G, chain(rep("                let dpdlv = -self.d * self.dpddsave; // d(p)/d[log(v)]\n                let vdiff = (p2.ln() - plog) * p2 / dpdlv;\n", "                let vdiff = crate::log_step(p2, plog, self.d, self.dpddsave);\n"))),
  ("src/lib.rs", lambda s: s + "\npub(crate) fn log_step(p: f64, plog: f64, d: f64, dp_dd: f64) -> f64 {\n    let dpdlv = -d * dp_dd;\n    (p.ln() - plog) * p / dpdlv\n}\n"))
r("b-mul-add", (D, rep("            mm += self.x[i] * item;", "            mm = self.x[i].mul_add(*item, mm);")))
r("b-vec-present", (D, rep("        for (i, x) in self.x.iter().enumerate() {\n            if x > &0.0 {\n                logxd", "        let present: Vec<usize> = (0..NC).filter(|&i| self.x[i] > 0.0).collect();\n        for i in present {\n            let x = self.x[i];\n            {\n                logxd")))
r("b-vec-full", (G, rep("        let mut taup0: [f64; 12 + 1] = [0.0; 12 + 1];\n", "        let mut taup0 = vec![0.0; 12 + 1];\n")))
r("b-a0-square", (D, chain(rep("sumhyp2 += self.n0i[i][j] * (th0t / hsn).powi(2);", "sumhyp2 += self.n0i[i][j] * th0t * th0t / hsn.powi(2);"), rep("sumhyp2 += self.n0i[i][j] * (th0t / hcn).powi(2);", "sumhyp2 += self.n0i[i][j] * th0t * th0t * 4.0 / (ep * ep + 2.0 + em * em);"))))

# ---- third batch
def fn_body(s, start, stop):
    i = s.index(start)
    return i, s.index(stop, i)


def edit_range(a, b, f):
    def g(s):
        i = s.index(a)
        j = s.index(b, i)
        return s[:i] + f(s[i:j]) + s[j:]
    return g


AR = ("    fn alphar(&mut self, itau: i32)", "    fn tterms(&mut self")
r("c-gerg-rows", (G, edit_range(*AR, lambda t: t.replace("                for k in 1..=KPOL[i] {", "                let (doik, toik, coik, taup) = (self.doik[i], self.toik[i], self.coik[i], self.taup[i]);\n                for k in 1..=KPOL[i] {").replace("self.doik[i][k]", "doik[k]").replace("self.toik[i][k]", "toik[k]").replace("self.coik[i][k]", "coik[k]").replace("self.taup[i][k]", "taup[k]"))))
r("c-gerg-continue", (G, chain(rep("            if self.x[i] > EPSILON {\n                for k in 1..=KPOL[i] {", "            if self.x[i] <= EPSILON {\n                continue;\n            }\n            {\n                for k in 1..=KPOL[i] {"), rep("                    if self.x[j] > EPSILON {\n                        let mn = MNUMB[i][j];", "                    if self.x[j] <= EPSILON {\n                        continue;\n                    }\n                    {\n                        let mn = MNUMB[i][j];"))))
r("c-gerg-itau-continue", (G, edit_range(*AR, lambda t: re.sub(r"( +)if itau > 0 \{\n(.*?)\n\1\}\n", lambda m: m.group(1) + "if itau <= 0 {\n" + m.group(1) + "    continue;\n" + m.group(1) + "}\n" + m.group(2) + "\n", t, flags=re.S))))
r("c-gerg-pure-method", (G, chain(
    lambda s: (lambda i, j: s[:i] + "        for i in 1..=NC_GERG {\n            if self.x[i] > EPSILON {\n                self.pure_terms(i, &delp, &expd, itau);\n            }\n        }\n\n" + s[j:].replace("    fn tterms(&mut self", "    fn pure_terms(&mut self, i: usize, delp: &[f64; 8], expd: &[f64; 8], itau: i32) {\n        let (mut ex, mut ex2, mut ex3, mut ndt, mut ndtd, mut ndtt): (f64, f64, f64, f64, f64, f64);\n" + s[i:j].replace("        for i in 1..=NC_GERG {\n            if self.x[i] > EPSILON {\n", "", 1).rstrip()[:-len("            }\n        }")].rstrip() + "\n    }\n\n    fn tterms(&mut self", 1))(*fn_body(s, "        for i in 1..=NC_GERG {\n            if self.x[i] > EPSILON {\n                for k in 1..=KPOL[i] {", "        // Calculate mixture contributions")))))
r("c-gerg-pair-method", (G, lambda s: (lambda i, j: s[:i] + "                        if mn > 0 {\n                            self.departure(i, j, mn, del, &delp, lntau, itau > 0);\n                        }\n" + s[j:].replace("    fn tterms(&mut self", "    #[allow(clippy::too_many_arguments)]\n    fn departure(&mut self, i: usize, j: usize, mn: usize, del: f64, delp: &[f64; 8], lntau: f64, all: bool) {\n        let (mut ex, mut ex2, mut cij0, mut eij0, mut ndt, mut ndtd, mut ndtt): (f64, f64, f64, f64, f64, f64, f64);\n        let xijf: f64;\n" + s[i:j].replace("                        if mn > 0 {\n", "", 1).rstrip()[:-1].rstrip().replace("itau > 0", "all") + "\n    }\n\n    fn tterms(&mut self", 1))(*fn_body(s, "                        if mn > 0 {\n                            xijf", "                    }\n                }\n            }\n        }\n    }\n\n    fn tterms"))))
r("c-gerg-while", (G, edit_range(*AR, lambda t: t.replace("                for k in 1..=KPOL[i] {\n", "                let mut k = 0;\n                while k < KPOL[i] {\n                    k += 1;\n").replace("        for i in 1..NC_GERG {\n            if self.x[i] > EPSILON {\n                for j in i + 1..=NC_GERG {\n", "        let mut i = 0;\n        while i < NC_GERG - 1 {\n            i += 1;\n            if self.x[i] > EPSILON {\n                let mut j = i;\n                while j < NC_GERG {\n                    j += 1;\n"))))
r("c-gerg-mix-order", (G, lambda s: (lambda a, b, c: s[:a] + s[b:c].rstrip() + "\n\n" + s[a:b].rstrip() + "\n" + s[c:])(s.index("        // Calculate pure fluid contributions\n"), s.index("        // Calculate mixture contributions\n"), s.index("    }\n\n    fn tterms(&mut self"))))
r("c-gerg-ar-reset", (G, edit_range(*AR, lambda t: t.replace("        for i in 0..=3 {\n            for j in 0..=3 {\n                self.ar[i][j] = 0.0;\n            }\n        }\n", "        self.ar.iter_mut().flatten().for_each(|v| *v = 0.0);\n"))), (D, rep("        for i in 0..4 {\n            for j in 0..4 {\n                self.ar[i][j] = 0.0;\n            }\n        }\n", "        for row in &mut self.ar {\n            row.fill(0.0);\n        }\n")))
r("c-gerg-pairs-iter", (G, edit_range(*AR, lambda t: t.replace("                for j in i + 1..=NC_GERG {\n                    if self.x[j] > EPSILON {\n                        let mn = MNUMB[i][j];", "                for (j, &mn) in MNUMB[i].iter().enumerate().skip(i + 1) {\n                    if self.x[j] > EPSILON {"))))
r("c-gerg-bell", (G, edit_range(*AR, lambda t: t.replace("                                    * (cij0 + eij0 + self.gijk[mn][k] + self.tijk[mn][k] * lntau)\n                                        .exp();", "                                    * f64::exp(self.tijk[mn][k].mul_add(lntau, self.gijk[mn][k] + del * (self.eijk[mn][k] + self.cijk[mn][k] * del)));"))))
r("c-gerg-tau-powf", (G, edit_range("    fn tterms(&mut self", "    fn pseudocriticalpoint", lambda t: t.replace("        let i: usize = 5;\n", "        let tau = lntau.exp();\n        let i: usize = 5;\n").replace("(self.toik[i][k] * lntau).exp()", "tau.powf(self.toik[i][k])").replace("(self.tijk[mn][k] * lntau).exp()", "tau.powf(self.tijk[mn][k])"))))
r("c-gerg-told-helper", (G, chain(rep("        if self.t != self.told || tr != self.trold2 {\n            self.tterms(lntau);\n        }\n        self.told = self.t;\n        self.trold2 = tr;\n", "        self.refresh_temperature_terms(tr, lntau);\n"), rep("    fn tterms(&mut self", "    fn refresh_temperature_terms(&mut self, tr: f64, lntau: f64) {\n        let fresh = self.told == self.t && self.trold2 == tr;\n        (self.told, self.trold2) = (self.t, tr);\n        if fresh {\n            return;\n        }\n        self.tterms(lntau);\n    }\n\n    fn tterms(&mut self"))))
r("c-gerg-props-split", (G, chain(edit_range("    pub fn properties(&mut self) -> f64 {", "    fn reducingparameters", lambda t: t.replace("        self.a = rt * self.a0[0]", "        self.energies(rt);\n        self.caloric(rt);\n        p\n    }\n\n    fn energies(&mut self, rt: f64) {\n        self.a = rt * self.a0[0]").replace("        if self.d > EPSILON {\n            self.cp", "    }\n\n    fn caloric(&mut self, rt: f64) {\n        if self.d > EPSILON {\n            self.cp").replace("(rt * 1000.0 * self.z);\n        p\n", "(rt * 1000.0 * self.z);\n")))))
r("c-gerg-newton-fn", (G, chain(rep("                let dpdlv = -self.d * self.dpddsave; // d(p)/d[log(v)]\n                let vdiff = (p2.ln() - plog) * p2 / dpdlv;\n                vlog += -vdiff;", "                let vdiff = newton_step(p2, plog, self.d, self.dpddsave);\n                vlog -= vdiff;"), lambda s: s + "\nfn newton_step(p: f64, plog: f64, d: f64, slope: f64) -> f64 {\n    let dpdlv = -d * slope;\n    (p.ln() - plog) * p / dpdlv\n}\n")),
  (D, chain(rep("                dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]\n                vdiff = (p2.ln() - plog) * p2 / dpdlv;\n                vlog -= vdiff;", "                vdiff = Self::newton_step(p2, plog, self.d * self.dp_dd_save);\n                vlog += vdiff;"), rep("        let mut dpdlv: f64;\n", ""), rep("    /// Calculate pressure as a function of", "    fn newton_step(p: f64, plog: f64, minus_dpdlv: f64) -> f64 {\n        (p.ln() - plog) * p / minus_dpdlv\n    }\n\n    /// Calculate pressure as a function of"))))
r("c-gerg-restart-closure", (G, chain(rep("        for it in 1..=50 {\n            if !(-7.0", "        let start_over = |n: i32| match n {\n            1 => Some(dcx * 3.0),\n            2 => Some(dcx * 2.5),\n            3 => Some(dcx * 2.0),\n            _ => None,\n        };\n        for it in 1..=50 {\n            if !(-7.0"), cut("                if nfail > 2 {\n", "                vlog = -self.d.ln();\n            }\n            self.d", "                nfail += 1;\n                match start_over(nfail) {\n                    Some(d) => self.d = d,\n                    None => {\n                        self.d = self.p / RGERG / self.t;\n                        return Err(DensityError::IterationFail);\n                    }\n                }\n"))))
r("c-gerg-break-value", (G, chain(rep("        for it in 1..=50 {\n            if !(-7.0", "        let mut it = 0;\n        let found = loop {\n            it += 1;\n            if it > 50 {\n                break false;\n            }\n            if !(-7.0"), edit_range("        let found = loop {", "    /// Calculate properties\n    pub fn properties", lambda t: re.sub(r"return Ok\(\(\)\);[^\n]*", "break true;", re.sub(r"\n +//herr[^\n]*\n +self\.d = self\.p / RGERG / self\.t;\n +return Err\(DensityError::IterationFail\);", "\n                    break false;", t)).replace("        }\n        // Iteration failed (above loop did not find a solution or checks made below indicate possible 2-phase state)\n", "        };\n        if found {\n            return Ok(());\n        }\n"))) ))
r("c-gerg-consistency-any", (G, cut("                            if (self.properties() <= 0.0", "                            {\n                                // Iteration failed", "                            let p = self.properties();\n                            let checked = [p, self.dp_dd, self.d2p_dtd, self.cv, self.cp, self.w];\n                            if checked.iter().any(|v| *v <= 0.0)\n")))
r("c-gerg-a0-comp", (G, edit_range("    fn alpha0(&mut self) {", "    fn alphar(&mut self", lambda t: t.replace("                self.a0[0] += self.x[i]\n", "                let (xi, n0) = (self.x[i], self.n0i[i]);\n                self.a0[0] += self.x[i]\n").replace("self.a0[2] += -self.x[i] * (self.n0i[i][3] + sumhyp2);", "self.a0[2] -= xi * (n0[3] + sumhyp2);").replace("self.a0[1] += self.x[i] * (self.n0i[i][3] + self.n0i[i][2] / self.t + sumhyp1);", "self.a0[1] += xi * (n0[3] + n0[2] / self.t + sumhyp1);"))))
r("c-gerg-a0-tanh", (G, edit_range("    fn alpha0(&mut self) {", "    fn alphar(&mut self", lambda t: t.replace("sumhyp1 += self.n0i[i][j] * th0t * hcn / hsn;", "sumhyp1 += self.n0i[i][j] * th0t / (hsn / hcn);").replace("sumhyp2 += self.n0i[i][j] * (th0t / hsn) * (th0t / hsn);", "sumhyp2 += self.n0i[i][j] * (th0t * th0t) / (hsn * hsn);"))))
r("c-gerg-a0-expm1", (G, edit_range("    fn alpha0(&mut self) {", "    fn alphar(&mut self", lambda t: t.replace("                        hsn = (ep - em) / 2.0;\n                        hcn = (ep + em) / 2.0;\n", "                        (hsn, hcn) = (0.5 * (ep - em), 0.5 * (ep + em));\n"))))
r("c-gerg-reduce-fn", (G, chain(rep("        // Calculate reducing variables for T and D\n", "        (dr, tr) = self.mixing_rules();\n        self.drold = dr;\n        self.trold = tr;\n        (dr, tr)\n    }\n\n    fn mixing_rules(&self) -> (f64, f64) {\n        let (mut dr, mut tr, mut vr) = (0.0, 0.0, 0.0);\n        let (mut xij, mut f): (f64, f64);\n        // Calculate reducing variables for T and D\n"), rep("            dr = 1.0 / vr;\n        }\n        self.drold = dr;\n        self.trold = tr;\n        (dr, tr)\n    }\n\n    fn alpha0", "            dr = 1.0 / vr;\n        }\n        (dr, tr)\n    }\n\n    fn alpha0"))))
r("c-gerg-reduce-diag", (G, rep("                f = 1.0;\n                for j in i..=NC_GERG {\n                    if self.x[j] > EPSILON {\n                        xij = f * (self.x[i] * self.x[j]) * (self.x[i] + self.x[j]);", "                for j in i..=NC_GERG {\n                    if self.x[j] > EPSILON {\n                        f = if i == j { 1.0 } else { 2.0 };\n                        xij = f * (self.x[i] * self.x[j]) * (self.x[i] + self.x[j]);"), ), (G, rep("/ (BTIJ[i][j] * self.x[i] + self.x[j]);\n                        f = 2.0;\n", "/ (BTIJ[i][j] * self.x[i] + self.x[j]);\n")))
r("c-xterms-pair-fn", (D, chain(rep("                        self.k3 += xij * self.kij5[i][j];\n                        u += xij * self.uij5[i][j];\n                        g += xij * self.gij5[i][j];\n", "                        let (kk, uu, gg) = self.pair(i, j);\n                        self.k3 += xij * kk;\n                        u += xij * uu;\n                        g += xij * gg;\n"), rep("    fn alpha0_detail(&mut self) {", "    fn pair(&self, i: usize, j: usize) -> (f64, f64, f64) {\n        (self.kij5[i][j], self.uij5[i][j], self.gij5[i][j])\n    }\n\n    fn alpha0_detail(&mut self) {"))))
r("c-xterms-copy", (D, chain(rep("        // Calculate pure fluid contributions\n        for (i, x) in self.x.iter().enumerate() {\n            if x > &0.0 {", "        // Calculate pure fluid contributions\n        let x21 = self.x;\n        for (i, x) in x21.iter().enumerate() {\n            if *x > 0.0 {"))))
r("c-xterms-double", (D, chain(rep("                for (j, xj) in self.x.iter().enumerate().skip(i + 1) {\n                    if xj > &0.0 {\n                        xij = 2.0 * xi * xj;", "                for (j, xj) in self.x.iter().enumerate() {\n                    if j > i && *xj > 0.0 {\n                        xij = xi * xj + xj * xi;"))))
r("c-xterms-swap", (D, lambda s: s.replace("        self.k3 = self.k3.powf(0.6);\n        u = u.powf(0.2);\n", "        self.k3 = (0.6 * self.k3.ln()).exp();\n        u = u.powf(1.0 / 5.0);\n")))
r("c-xterms-csn-pow", (D, rep("            self.csn[n] = AN[n] * u.powf(UN[n]);\n            if GN[n] == 1 {\n                self.csn[n] *= g;\n            }\n            if QN[n] == 1 {\n                self.csn[n] *= q2;\n            }\n            if FN[n] == 1 {\n                self.csn[n] *= f;\n            }\n", "            let gq = if GN[n] == 1 { g } else { 1.0 } * if QN[n] == 1 { q2 } else { 1.0 };\n            self.csn[n] = AN[n] * gq * if FN[n] == 1 { f } else { 1.0 } * u.powf(UN[n]);\n")))
r("c-alphar-term-fn", (D, chain(rep("        for n in 0..58 {\n            // Density derivatives\n            s0 = sum0[n] + sumb[n];\n            s1 = sum0[n] * coefd1[n] + sumb[n];\n            s2 = sum0[n] * coefd2[n];\n            s3 = sum0[n] * coefd3[n];\n", "        let derivatives = |n: usize| (sum0[n] + sumb[n], sum0[n] * coefd1[n] + sumb[n], sum0[n] * coefd2[n], sum0[n] * coefd3[n]);\n        for n in 0..58 {\n            // Density derivatives\n            let (s0, s1, s2, s3) = derivatives(n);\n"), rep("        let mut s0;\n        let mut s1;\n        let mut s2;\n        let mut s3;\n", ""))))
r("c-alphar-rt-out", (D, chain(rep("            self.ar[0][0] += rt * s0;\n            self.ar[0][1] += rt * s1;\n            self.ar[0][2] += rt * s2;\n            self.ar[0][3] += rt * s3;\n", "            for (a, v) in self.ar[0].iter_mut().zip([s0, s1, s2, s3]) {\n                *a += v;\n            }\n"), lambda s: s.replace("                //ar(2, 3) = ar(2, 3) + CoefT2(n) * s3;\n            }\n        }\n", "                //ar(2, 3) = ar(2, 3) + CoefT2(n) * s3;\n            }\n        }\n        for a in self.ar[0].iter_mut() {\n            *a *= rt;\n        }\n"))))
r("c-alphar-no-tun", (D, lambda s: s.replace("sumb[n] = sum * self.tun[n];", "sumb[n] = sum / self.t.powf(UN[n]);").replace("dknn[BN[n]] * self.tun[n] * expn[KN[n]]", "dknn[BN[n]] * expn[KN[n]] / self.t.powf(UN[n])")))
r("c-alphar-explicit-exp", (D, rep("        expn[0] = 1.0;\n\n        for n in 1..5 {\n            expn[n] = (-dknn[n]).exp();\n        }\n", "        for (n, (e, k)) in expn.iter_mut().zip(&dknn).enumerate() {\n            *e = if n == 0 { 1.0 } else { (-k).exp() };\n        }\n")))
r("c-alphar-structs", (D, chain(rep("                bkd = BN[n] as f64 - KN[n] as f64 * dknn[KN[n]];\n                ckd = KN[n] as f64 * KN[n] as f64 * dknn[KN[n]];\n                coefd1[n] = bkd;\n                coefd2[n] = bkd * (bkd - 1.0) - ckd;\n                coefd3[n] = (bkd - 2.0) * coefd2[n] + ckd * (1.0 - KN[n] as f64 - 2.0 * bkd);\n", "                let k = KN[n] as f64;\n                bkd = BN[n] as f64 - k * dknn[KN[n]];\n                ckd = k.powi(2) * dknn[KN[n]];\n                [coefd1[n], coefd2[n], coefd3[n]] = Self::density_coefficients(bkd, ckd, k);\n"), rep("    /// Calculate density as a function of", "    fn density_coefficients(b: f64, c: f64, k: f64) -> [f64; 3] {\n        let second = b * (b - 1.0) - c;\n        [b, second, (b - 2.0) * second + c * (1.0 - k - 2.0 * b)]\n    }\n\n    /// Calculate density as a function of"))))
r("c-props-let", (D, lambda s: (lambda i: s[:i] + s[i:].replace("let rt = RDETAIL * self.t;", "let (t, d) = (self.t, self.d);\n        let rt = RDETAIL * t;", 1).replace("self.t ", "t ").replace("self.d ", "d "))(s.index("    pub fn properties(&mut self)"))))
r("c-dens-rev", (D, rep("        for _it in 0..20 {", "        for _left in (0..20).rev() {")))
r("c-dens-some", (D, chain(rep("            if !(-7.0..=100.0).contains(&vlog) {\n", "            const LIMITS: std::ops::RangeInclusive<f64> = -7.0..=100.0;\n            if LIMITS.contains(&vlog) == false {\n"))))
r("c-dens-tuple", (D, chain(rep("            self.d = (-vlog).exp();\n            p2 = self.pressure();\n            if self.dp_dd_save < EPSILON || p2 < EPSILON {", "            let (p, slope) = self.trial(vlog);\n            p2 = p;\n            if slope < EPSILON || p2 < EPSILON {"), rep("dpdlv = -self.d * self.dp_dd_save;", "dpdlv = -self.d * slope;"), rep("    /// Calculate pressure as a function of", "    fn trial(&mut self, vlog: f64) -> (f64, f64) {\n        self.d = (-vlog).exp();\n        let p = self.pressure();\n        (p, self.dp_dd_save)\n    }\n\n    /// Calculate pressure as a function of"))))
r("c-dens-err-closure", (D, chain(rep("        let plog = self.p.ln();\n        let mut vlog", "        let ideal = self.p / RDETAIL / self.t;\n        let plog = self.p.ln();\n        let mut vlog"), lambda s: (lambda i: s[:i] + s[i:].replace("self.d = self.p / RDETAIL / self.t;", "self.d = ideal;"))(s.index("        let plog = self.p.ln();")))))
r("c-comp-rebuild", (C, edit_range("            self.methane *= factor;", "        } else {\n            return Err(CompositionError::Empty)", lambda t: "            *self = Composition {\n" + "".join("                %s: self.%s * factor,\n" % (n, n) for n in NAMES) + "            };\n")))
r("c-comp-groups", (C, edit_range("        self.methane\n            + self.nitrogen", "    }\n\n    /// Normalizes", lambda t: "        let light = " + " + ".join("self." + n for n in NAMES[:5]) + ";\n        let heavy = " + " + ".join("self." + n for n in NAMES[5:14]) + ";\n        let rest = " + " + ".join("self." + n for n in NAMES[14:]) + ";\n        light + heavy + rest\n")))
r("c-comp-check-once", (C, edit_range("        if (self.sum() - 0.0).abs()", "    }\n}\n\n/// Error", lambda t: "        let sum = self.sum();\n        if sum.abs() < 1.0e-10 {\n            Err(CompositionError::Empty)\n        } else if (0.99..=1.01).contains(&sum) {\n            Ok(())\n        } else {\n            Err(CompositionError::BadSum)\n        }\n")))
r("c-ffi-ptr-field", (F, lambda s: re.sub(r"let (\w+) = &mut \*ptr;\n        \1\.(\w) = (\w+);", r"(*ptr).\2 = \3;", s)))
r("c-ffi-write", (F, lambda s: re.sub(r"match (\w+)\.(set_composition|density)\((.*?)\) \{\n            Ok\(_\) => \*_err = (\w+)::Ok,\n            Err\(e\) => \*_err = e,\n        \}", r"let status = \1.\2(\3).err().unwrap_or(\4::Ok);\n        *_err = status;", s)))
r("c-ffi-props-destructure", (F, lambda s: s.replace("        let aga8 = &*ptr;\n", "        let aga8 = match ptr.as_ref() {\n            Some(m) => m,\n            None => unreachable!(),\n        };\n")))
r("c-ffi-handle", (F, lambda s: re.sub(r"assert!\(!ptr\.is_null\(\)\);\n        let (\w+) = &mut \*ptr;", r"let \1 = super::checked(ptr);", s) + "\nunsafe fn checked<'a, T>(ptr: *mut T) -> &'a mut T {\n    assert!(!ptr.is_null());\n    &mut *ptr\n}\n"))
