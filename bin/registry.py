"""Which driver, specification and model decide each property."""
import glob, os
from vlib import REPO
TARGETS = {}
PROPS = {}


def G(*pats, no=()):
    """Sources of the working tree (tests and benchmarks left out)."""
    out = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            b = os.path.basename(f)
            if b.endswith("_test.cc") or "benchmark" in b or any(x in f for x in no):
                continue
            out.append(os.path.relpath(f, REPO))
    return out


def D(n):
    return ["harness/drivers/%s.cc" % n]


CORE = G("psi/utils/*.cc", "psi/cryptor/*.cc", "psi/algorithm/*.cc", "psi/algorithm/kkrt/*.cc", "psi/algorithm/rr22/*.cc",
         "psi/algorithm/rr22/okvs/*.cc", "psi/algorithm/ecdh/*.cc", "psi/algorithm/ecdh/ub_psi/*.cc", "psi/algorithm/nty/*.cc",
         "psi/checkpoint/*.cc", "psi/config/*.cc", "psi/legacy/*.cc", "psi/legacy/*/*.cc", "psi/*.cc",
         no=("csv_converter.cc",))
PROTOS = sorted(set(G("psi/proto/*.proto", "psi/utils/*.proto", "psi/legacy/*.proto", "psi/algorithm/*/*.proto",
                      "psi/checkpoint/*.proto", "psi/algorithm/*/*/*.proto", no=("entry.proto", "kuscia.proto"))))

TARGETS["progress"] = dict(driver=D("progress"), repo=["psi/utils/progress.cc"])
PROPS["C01"] = dict(
    models=[dict(module="ProgressMC", cfg="ProgressMC.cfg"),
            dict(module="ProgressMC", cfg="ProgressMC4.cfg", thorough=True)],
    parts=[dict(target="progress", spec="ProgressTrace", must_see=["Get", "Read", "Done", "NextSub"])])

# what a two-party run of the v2 protocols needs
PSI2 = G("psi/utils/*.cc", "psi/cryptor/*.cc", "psi/algorithm/kkrt/*.cc", "psi/algorithm/rr22/*.cc", "psi/algorithm/rr22/okvs/*.cc",
         "psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/sender.cc", "psi/algorithm/ecdh/receiver.cc", "psi/checkpoint/*.cc",
         "psi/config/*.cc", "psi/interface.cc", "psi/trace_categories.cc", no=("csv_converter.cc",))
TARGETS["psi2"] = dict(driver=D("psi2") + ["harness/common/iocrash.cc"], repo=PSI2, protos=PROTOS)

PJ = [dict(module="PsiJoinMC", cfg="PsiJoinMC.cfg"), dict(module="PsiJoinMC", cfg="PsiJoinMC4.cfg", thorough=True)]


def psi2(mode, **kw):
    return dict(target="psi2", spec="Psi2Trace", args=["--mode", mode], must_see=["End", "Zip"], **kw)


PROPS["C02"] = dict(models=PJ, parts=[psi2("ecdh")])
PROPS["C06"] = dict(models=PJ, parts=[psi2("kkrt"), psi2("rr22")])
PROPS["C10"] = dict(models=PJ, parts=[psi2("digest")])
PROPS["C13"] = dict(models=PJ, parts=[psi2("join")])
PROPS["C14"] = dict(models=PJ, parts=[psi2("align")])
PROPS["C41"] = dict(models=PJ, parts=[psi2("rerun")])

ER = [dict(module="EcdhResumeMC", cfg="EcdhResumeMC.cfg"), dict(module="EcdhResumeMC", cfg="EcdhResumeMC1.cfg"),
      dict(module="EcdhResumeMC", cfg="EcdhResumeMC4.cfg", thorough=True)]
BR = [dict(module="BucketResumeMC", cfg="BucketResumeMC.cfg")]
PROPS["C05"] = dict(models=ER, parts=[psi2("resume-ecdh")])
PROPS["C07"] = dict(models=BR, parts=[psi2("resume-kkrt"), psi2("resume-rr22")])
PROPS["C08"] = dict(models=ER, parts=[psi2("admit")])

TARGETS["wire"] = dict(driver=D("wire"), repo=PSI2, protos=PROTOS)
EW = [dict(module="EcdhWireMC", cfg="EcdhWireMC.cfg"), dict(module="EcdhWireMC", cfg="EcdhWireMC4.cfg", thorough=True)]


def wire(mode, see, **kw):
    return dict(target="wire", spec="WireTrace", cfg="WireTrace.cfg", args=["--mode", mode], must_see=see, **kw)


PROPS["C03"] = dict(models=EW, parts=[wire("disclose", ["View", "NoResult"])])
PROPS["C04"] = dict(models=EW, parts=[wire("terms", ["Masked", "Dual", "Over", "Stable"]), wire("oprf", ["Stable"])])

AG = [dict(module="PsiAgree", cfg="PsiAgreeMC.cfg")]


def agree(mode, see):
    return dict(target="psi2", spec="AgreeTrace", cfg="AgreeTrace.cfg", args=["--mode", mode], must_see=see)


PROPS["C09"] = dict(models=AG, parts=[agree("config", ["Ref", "Wire", "End"])])
PROPS["C11"] = dict(models=AG, parts=[agree("fail", ["Stop", "Early"])])

TARGETS["ub"] = dict(driver=D("ub") + ["harness/common/iocrash.cc"], repo=PSI2 + G("psi/algorithm/ecdh/ub_psi/*.cc"), protos=PROTOS)
UB = [dict(module="UbPsiMC", cfg="UbPsiMC.cfg")]


def ub(mode, see):
    return dict(target="ub", spec="UbPsiTrace", cfg="UbPsiTrace.cfg", args=["--mode", mode], must_see=see)


PROPS["C20"] = dict(models=UB, parts=[ub("modes", ["On", "Off"])])
PROPS["C21"] = dict(models=UB, parts=[ub("crash", ["On", "Off"])])

TARGETS["ubwire"] = dict(driver=D("ubwire"), repo=PSI2 + G("psi/algorithm/ecdh/ub_psi/*.cc"), protos=PROTOS)


def ubwire(mode, see):
    return dict(target="ubwire", spec="UbWireTrace", cfg="UbWireTrace.cfg", args=["--mode", mode], must_see=see)


PROPS["C22"] = dict(models=[dict(module="UbWireMC", cfg="UbWireMC.cfg")],
                    parts=[ubwire("terms", ["Cache", "Blind", "Answer", "Stable"]), ubwire("view", ["View", "NoResult"])])

TARGETS["thr"] = dict(driver=D("thr") + ["harness/common/iocrash.cc"], repo=PSI2 + G("psi/algorithm/ecdh/ub_psi/*.cc",
                      "experiment/psi/threshold_ecdh_psi/*.cc", "experiment/psi/threshold_ub_psi/*.cc", "psi/apps/psi_launcher/factory.cc"), protos=PROTOS)
TH = [dict(module="ThresholdMC", cfg="ThresholdMC.cfg"), dict(module="ThresholdMC", cfg="ThresholdMC4.cfg", thorough=True)]


def thr(mode, see):
    return dict(target="thr", spec="ThresholdTrace", args=["--mode", mode], must_see=see)


PROPS["C35"] = dict(models=TH, parts=[thr("ecdh", ["End", "Zip"]), thr("ub", ["End", "Zip"]), thr("digest", ["End"]), thr("differ", ["Differ"]),
                                      thr("resume", ["Try", "End"]), thr("wire", ["Index", "Order"]), thr("ubwire", ["Index", "Order"])])


TARGETS["util"] = dict(driver=D("util"), repo=G("psi/utils/*.cc", "psi/cryptor/*.cc", "psi/interface.cc", "psi/trace_categories.cc",
                       "psi/checkpoint/*.cc", no=("csv_converter.cc",)), protos=PROTOS)


def util(mode, spec, see, cfg=None):
    return dict(target="util", spec=spec, cfg=cfg, args=["--mode", mode], must_see=see)


def MC(m, *more):
    return [dict(module=m, cfg=m + ".cfg")] + [dict(module=m, cfg=c, thorough=True) for c in more]


PROPS["C12"] = dict(models=MC("KeyTableMC"), parts=[util("keys", "KeyTableTrace", ["Sort", "Plain", "Keys", "UKeys", "Digest"])])
PROPS["C15"] = dict(models=MC("BucketStoreMC"), parts=[util("bucket", "BucketStoreTrace", ["Put", "Flush", "Reopen", "Truncate", "Load"])])
PROPS["C16"] = dict(models=MC("IndexStoreMC"), parts=[util("store", "IndexStoreTrace", ["Write", "Crash_", "Read", "Mem"])])
PROPS["C17"] = dict(models=MC("BatchesMC"), parts=[util("batches", "BatchesTrace", ["Read", "Shuf", "End", "Fresh", "Again"])])
PROPS["C18"] = dict(models=MC("CuckooMC", "CuckooMC4.cfg"), parts=[util("cuckoo", "CuckooTrace", ["Place", "Full"])])
PROPS["C19"] = dict(models=MC("CsvCheckMC"), parts=[util("csv", "CsvCheckTrace", ["Check"])])
PROPS["C27"] = dict(models=MC("DhTermsMC"), parts=[util("crypt", "DhTermsTrace", ["Hash", "Mask", "Same", "Key"], "DhTermsTrace.cfg")])
PROPS["C28"] = dict(models=MC("ChannelsMC"), parts=[util("codec", "ChannelsTrace", ["Msg", "Send", "Recv"])])

TARGETS["mp"] = dict(driver=D("mp"), repo=G("psi/utils/*.cc", "psi/cryptor/*.cc", "psi/algorithm/*.cc", "psi/algorithm/kkrt/*.cc",
                     "psi/algorithm/rr22/*.cc", "psi/algorithm/rr22/okvs/*.cc", "psi/algorithm/ecdh/*.cc", "psi/algorithm/nty/*.cc",
                     "psi/checkpoint/*.cc", "psi/legacy/*.cc", "psi/legacy/dp_psi/*.cc", "psi/interface.cc", "psi/trace_categories.cc",
                     no=("csv_converter.cc",)), protos=PROTOS)


def mp(mode, see, spec="MpTrace", cfg=None):
    return dict(target="mp", spec=spec, cfg=cfg, args=["--mode", mode], must_see=see)


PROPS["C23"] = dict(models=MC("Ecdh3MC", "Ecdh3MC3.cfg"),
                    parts=[mp("ecdh3", ["End"]), mp("wire3", ["Msg", "All", "Stable"], "Ecdh3Trace", "Ecdh3Trace.cfg")])
PROPS["C24"] = dict(models=MC("NtyMC"), parts=[mp("nty", ["End"]), mp("ntywire", ["Stable"])])
PROPS["C25"] = dict(models=MC("NPartyMC", "NPartyMC5.cfg"), parts=[mp("npc", ["End"]), mp("bucket", ["File"]), mp("operator", ["Op"])])
PROPS["C26"] = dict(models=MC("DpPsiMC"), parts=[mp("dp", ["Dp", "Sure"], "DpTrace")])

TARGETS["km"] = dict(driver=D("km"), repo=G("experiment/psi/kmprt17_mp_psi/*.cc", "psi/utils/communication.cc", "psi/utils/sync.cc"), protos=PROTOS)
PROPS["C36"] = dict(models=MC("KmprtMC", "KmprtMC5.cfg"), parts=[
    dict(target="km", spec="MpTrace", args=["--mode", "run"], must_see=["End"]),
    dict(target="km", spec="MpTrace", args=["--mode", "wire"], must_see=["Stable"])])

TARGETS["okvs"] = dict(driver=D("okvs"), repo=G("psi/algorithm/rr22/okvs/*.cc"), protos=[])
PROPS["C37"] = dict(models=MC("OkvsMC", "OkvsMC4.cfg") + [dict(module="OkvsMC", cfg="OkvsMC2.cfg")], parts=[
    dict(target="okvs", spec="OkvsTrace", must_see=["Get", "Many", "Big", "Again"])])

TARGETS["piano"] = dict(driver=D("piano"), repo=G("experiment/pir/piano/*.cc"), protos=["experiment/pir/piano/piano.proto"])
PROPS["C32"] = dict(models=MC("PianoMC", "PianoMC4.cfg") + [dict(module="PianoMC", cfg="PianoMC2.cfg")], parts=[
    dict(target="piano", spec="PianoTrace", must_see=["Open", "Ask", "Lost"])])
TARGETS["pps"] = dict(driver=D("pps"), repo=G("experiment/pir/pps/*.cc"), protos=[])
PROPS["C33"] = dict(models=MC("PpsMC", "PpsMC4.cfg", "PpsMC7.cfg") + [dict(module="PpsMC", cfg="PpsMC%s.cfg" % x) for x in "1cd"], parts=[
    dict(target="pps", spec="PpsTrace", must_see=["One", "Many"])])
TARGETS["simplepir"] = dict(driver=D("simplepir"), repo=G("experiment/pir/simplepir/*.cc"), protos=[])
PROPS["C34"] = dict(models=MC("SimplePirMC", "SimplePirMC4.cfg"), parts=[
    dict(target="simplepir", spec="SimplePirTrace", must_see=["Look", "Fresh", "Lwe"])])
# once as the production build has it (AVX2), once without
SPIRAL = dict(driver=D("spiral"), repo=G("psi/algorithm/spiral/*.cc", "psi/algorithm/spiral/arith/*.cc", "psi/algorithm/pir_interface/*.cc"),
              protos=["psi/algorithm/spiral/serializable.proto", "psi/algorithm/pir_interface/pir_type.proto"])
TARGETS["spiral"] = dict(SPIRAL, flags="-mavx2")
TARGETS["spiral_plain"] = SPIRAL
PROPS["C39"] = dict(models=MC("SpiralMC", "SpiralMC4.cfg"), parts=[
    dict(target="spiral", spec="SpiralTrace", must_see=["Shape", "Gen", "Dump", "Load", "Ask", "Keys", "Noise", "Cut", "Even"]),
    dict(target="spiral_plain", spec="SpiralTrace", args=["--mode", "look"], must_see=["Ask"])])

# the entry points; APSI and the look-up built on it are stand-ins
TARGETS["launch"] = dict(driver=D("launch"),
                         repo=sorted(set(TARGETS["mp"]["repo"] + TARGETS["ub"]["repo"] + G("psi/apps/psi_launcher/*.cc", "experiment/psi/threshold_*/*.cc",
                         no=("main.cc",)))),
                         protos=PROTOS + ["psi/proto/entry.proto", "psi/proto/kuscia.proto"], shim_protos=["yacl/link/link.proto"])
PROPS["C40"] = dict(models=MC("LaunchMC"), parts=[
    dict(target="launch", spec="LaunchTrace", cfg="LaunchTrace.cfg", args=["--mode", "two"], must_see=["End", "Zip"]),
    dict(target="launch", spec="LaunchTrace", cfg="LaunchTrace.cfg", args=["--mode", "legacy"], must_see=["Ran", "Failed"]),
    dict(target="launch", spec="UbPsiTrace", cfg="UbPsiTrace.cfg", args=["--mode", "ub"], must_see=["Input", "Off", "On"]),
    dict(target="launch", spec="LaunchTrace", cfg="LaunchTrace.cfg", args=["--mode", "kuscia"], must_see=["Kus", "Place"]),
    dict(target="launch", spec="LaunchTrace", cfg="LaunchTrace.cfg", args=["--mode", "pir"], must_see=["Opt"])])

TARGETS["dk"] = dict(driver=D("dk"), pre_inc=["harness/shim_dk"], flags="-DVERIF_DK",
                     repo=G("psi/algorithm/dkpir/*.cc", "psi/utils/csv_converter.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/io.cc", "psi/utils/random_str.cc",
                            "psi/wrapper/apsi/utils/common.cc", "psi/wrapper/apsi/utils/sender_db.cc", "psi/wrapper/apsi/utils/csv_reader.cc", "psi/wrapper/apsi/yacl_channel.cc"),
                     protos=PROTOS)
PROPS["C38"] = dict(models=MC("DkpirMC", "DkpirMC4.cfg"), parts=[
    dict(target="dk", spec="DkpirTrace", args=["--mode", "look"], must_see=["Off", "On"]),
    dict(target="dk", spec="DkpirTrace", args=["--mode", "pay"], must_see=["Off", "On"]),
    dict(target="dk", spec="DkpirTrace", args=["--mode", "hide"], must_see=["Fresh", "Keys"])])

TARGETS["apsi"] = dict(driver=D("apsi"), pre_inc=["harness/shim_dk"], flags="-DVERIF_DK",
                       repo=G("psi/wrapper/apsi/cli/entry.cc", "psi/wrapper/apsi/cli/sender_dispatcher.cc", "psi/wrapper/apsi/utils/*.cc", "psi/wrapper/apsi/api/sender.cc",
                              "psi/wrapper/apsi/api/receiver.cc", "psi/wrapper/apsi/api/*_c_wrapper.cc", "psi/wrapper/apsi/api/wrapper_util.cc", "psi/wrapper/apsi/yacl_channel.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/io.cc",
                              "psi/utils/random_str.cc", "psi/utils/resource_manager.cc", no=("group_bucket_db.cc",)),
                       protos=PROTOS + ["psi/wrapper/apsi/utils/group_db_status.proto"], shim_protos=["yacl/link/link.proto"])
PROPS["C42"] = dict(models=MC("ApsiMC", "ApsiMC4.cfg"), parts=[
    dict(target="apsi", spec="ApsiTrace", args=["--mode", "look"], must_see=["Prep", "Look"]),
    dict(target="apsi", spec="ApsiTrace", args=["--mode", "stop"], must_see=["Prep", "Look"]),
    dict(target="apsi", spec="ApsiTrace", args=["--mode", "cut"], must_see=["Prep", "Look"])])
