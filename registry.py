"""Which specifications and harnesses decide each property."""
import os
_cfg = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "trace.cfg.in")).read()
def T(pid, harness=None, **k):
    return dict(module=pid + "Trace", cfg=_cfg.replace("@P@", pid), harness=harness or pid.lower(), **k)
def D(module, cfg=None, **k):
    return dict(module=module, cfg=cfg or module + ".cfg", **k)
CHECKS = {}
def C(pid, **k):
    k.setdefault("level", "model_checking"); k.setdefault("traces", [T(pid)])
    CHECKS[pid] = k

C("A01", design=[D("LightconeMC")])
C("A02", design=[D("CosmoMC")])
C("C01", design=[D("ConstantsMC")],
  generate=[dict(module="ConstantsMC", cfg="ConstantsGen.cfg", num=(40, 400), depth=15, out="constants.json")])
C("C02", design=[D("CosmoMC")])
C("B01", design=[D("ClustersMC"), D("ClustersMC", "ClustersMC3.cfg"), D("ClustersMC", "ClustersMC33.cfg")])
C("B02", design=[D("ComplexMC"), D("ComplexMC", "ComplexMC3.cfg")])
C("B03", design=[D("RaysMC")])
C("D01", design=[D("SignalMC")])
C("D02", design=[D("SignalMC")])
C("E01", design=[D("ModesMC"), D("ModesMC", "ModesMC222.cfg")])
C("E02", design=[D("ModesMC"), D("ModesMC", "ModesMC222.cfg")])
C("E03", design=[D("ConvMC"), D("ConvMC", "ConvMC32.cfg")])
C("F01", design=[D("FilesMC")])
C("F02", design=[D("DirectoryMC")])
C("F03", design=[D("CatalogueMC"), D("CatalogueMC", "CatalogueMC4.cfg")])

C("G01", design=[D("UvCacheMC")])
C("G02", design=[D("UvMC"), D("UvMC", "UvMC3.cfg")])
C("S01", design=[D("StatsMC")])
C("S02", design=[D("RegionsMC"), D("RegionsMC", "RegionsMC3.cfg")])
C("V01", design=[D("RsdMC"), D("RsdMC", "RsdMC3.cfg")])
C("W01", design=[D("SkyMC"), D("SkyMC", "SkyMC3.cfg")])
C("H01", design=[D("HistoryMC")],
  generate=[dict(module="HistoryMC", cfg="HistoryGen.cfg", num=(40, 400), depth=28, out="history.json")])
C("G03", design=[D("NoiseMC")])
C("E04", design=[D("TripleMC"), D("TripleMC", "TripleMC33.cfg")])
C("E05", design=[D("FieldsMC"), D("FieldsMC", "FieldsMC3.cfg"), D("FieldsMC", "FieldsMC22.cfg"), D("FieldsMC", "FieldsMC23.cfg")])
C("X01", design=[D("FiltersMC"), D("FiltersMC", "FiltersMC4.cfg")])
C("X02", design=[D("FiltersMC")])
C("B04", design=[D("SizesMC"), D("SizesMC", "SizesMC3.cfg")])
C("S03", design=[D("StitchMC")])
C("G04", design=[D("LayoutMC")])
C("L01", design=[D("EmissionMC")])
C("L02", design=[D("AbsorbMC")])
C("P01", design=[D("PosteriorMC")])
