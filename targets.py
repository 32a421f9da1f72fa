# name -> (build variant, sources below /verif, extra link flags)
CORE = ["sim/core.cc", "sim/seam.cc"]
WORK = ["sim/work/w%s.cc" % n for n in ("03", "04", "05", "06", "07", "08", "10", "11", "14", "18")]
TARGETS = {
    "P13": ("sched", CORE + ["sim/sched.cc", "sim/p13_shared.cc"], ["-lz"]),
    "P12": ("sched", CORE + ["sim/sched.cc", "sim/p12_threads.cc"] + WORK, ["-lz"]),
    "P22": ("sched", CORE + ["sim/sched.cc", "sim/p22_log.cc"], ["-lz"]),
    "P01": ("asan", CORE + ["sim/p01_stream.cc"], []),
    "P02": ("asan", CORE + ["sim/p02_vfs.cc"], []),
    "P03": ("asan", CORE + ["sim/p03_vdf.cc"], []),
    "P04": ("asan", CORE + ["sim/p04_vdf_damage.cc"], []),
    "P05": ("zip", CORE + ["sim/p05_zipped.cc"], ["-lz"]),
    "P06": ("asan", CORE + ["sim/p06_archive.cc"], []),
    "P07": ("asan", CORE + ["sim/p07_objects.cc"], []),
    "P18": ("asan", CORE + ["sim/p18_world.cc"], []),
    "P08": ("asan", CORE + ["sim/p08_saves.cc"], []),
    "P09": ("asan", CORE + ["sim/p09_saves_faults.cc"], []),
    "P11": ("asan", CORE + ["sim/p11_assets.cc"], []),
    "P10": ("asan", CORE + ["sim/p10_asset_damage.cc"], []),
    "P14": ("asan", CORE + ["sim/p14_vm.cc"], []),
    "P15": ("asan", CORE + ["sim/p15_vm_faults.cc"], []),
    "P21": ("asan", CORE + ["sim/p21_classes.cc"], []),
    "P20": ("asan", CORE + ["sim/p20_mds.cc"], []),
    "P19": ("asan", CORE + ["sim/p19_archive_damage.cc"], []),
}
