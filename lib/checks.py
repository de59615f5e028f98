"""Which machinery decides which property."""
import core, pool_pack, pool_foreign, pool_fuse, pool_volume, pool_hostile, pool_repack, pool_checksum, pool_compress, pool_extract, pool_guard, pool_rewrite, pool_fault, pool_remap, pool_dev, pool_cli, pool_damage


def c01(rep):
    core.build("harness", "cli")
    pool_pack.run(rep, core.THOROUGH)


def c04(rep):
    core.build("harness")
    pool_foreign.families(rep, core.THOROUGH, hugefiles=rep.pid == "C07")
    if rep.pid == "C04":
        pool_hostile.shapes(rep, core.THOROUGH)


def c17(rep):
    core.build("fsd", "fuse")
    pool_fuse.run(rep, core.THOROUGH)


def c06(rep):
    core.build("harness", "cli", "fsd", "fuse")
    pool_volume.run(rep, core.THOROUGH)


def c05(rep):
    core.build("harness", "cli", "fsd", "fuse")
    pool_hostile.run(rep, core.THOROUGH)


def c08(rep):
    core.build("harness", "cli")
    pool_repack.run(rep, core.THOROUGH)


def c09(rep):
    core.build("harness", "cli")
    pool_checksum.run(rep, core.THOROUGH)


def c10(rep):
    core.build("harness", "cli")
    pool_compress.run(rep, core.THOROUGH)


def c15(rep):
    core.build("cli")
    pool_extract.run(rep, core.THOROUGH)


def c16(rep):
    core.build("cli")
    pool_extract.run(rep, core.THOROUGH)


def c14(rep):
    core.build("cli")
    pool_guard.run(rep, core.THOROUGH)


def c13(rep):
    core.build("cli", "fault")
    pool_rewrite.run(rep, core.THOROUGH)


def c12(rep):
    core.build("harness", "cli", "fault")
    pool_fault.run(rep, core.THOROUGH)


def c11(rep):
    core.build("harness", "cli")
    pool_remap.run(rep, core.THOROUGH)


def c20(rep):
    core.build("harness", "sync", "fault")
    pool_dev.run(rep, core.THOROUGH)


def c21(rep):
    core.build("harness", "cli")
    pool_cli.run(rep, core.THOROUGH)


def c22(rep):
    core.build("harness", "cli", "fsd", "fuse", "fault")
    pool_damage.run(rep, core.THOROUGH)


CHECKS = {
    "C01": (c01, "model_checking"),
    "C02": (c01, "model_checking"),
    "C03": (c01, "model_checking"),
    "C04": (c04, "model_checking"),
    "C05": (c05, "model_checking"),
    "C06": (c06, "model_checking"),
    "C07": (c04, "model_checking"),
    "C08": (c08, "model_checking"),
    "C09": (c09, "model_checking"),
    "C10": (c10, "model_checking"),
    "C11": (c11, "model_checking"),
    "C12": (c12, "model_checking"),
    "C13": (c13, "model_checking"),
    "C14": (c14, "model_checking"),
    "C15": (c15, "model_checking"),
    "C16": (c16, "model_checking"),
    "C17": (c17, "model_checking"),
    "C18": (c17, "model_checking"),
    "C19": (c01, "model_checking"),
    "C20": (c20, "model_checking"),
    "C21": (c21, "model_checking"),
    "C22": (c22, "model_checking"),
}
