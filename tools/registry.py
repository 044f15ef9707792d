# What decides each property: models (checked with TLC; those with "emits" produce schedules for the
# driver), and parts (a driver of a harness crate, and the trace specification its recording must satisfy).
LITE = "lite"
VF = "vf"
DB = "db"
CHECKS = {
    "C01": dict(models=[dict(module="MmrMC", cfg="MmrMC.cfg", thorough_cfg="MmrMCT.cfg", emits=True),
                        dict(module="MmrWideMC", cfg="MmrWideMC.cfg")],
                parts=[dict(crate=LITE, driver="mmr", trace="MmrTrace"),
                       dict(crate=LITE, driver="mmr_wide", trace="MmrWideTrace")]),
    "C02": dict(models=[dict(module="MmrAttackMC", cfg="MmrAttackMC.cfg", thorough_cfg="MmrAttackMCT.cfg")],
                parts=[dict(crate=LITE, driver="mmr_proof", trace="MmrProofTrace"),
                       dict(crate=LITE, driver="mmr_wide", trace="MmrWideTrace")]),
    "C03": dict(models=[dict(module="DenseMC", cfg="DenseMC.cfg", thorough_cfg="DenseMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="dense", trace="DenseTrace")]),
    "C04": dict(parts=[dict(crate=LITE, driver="dense_proof", trace="DenseProofTrace")]),
    "C05": dict(models=[dict(module="BulkMC", cfg="BulkMC.cfg", thorough_cfg="BulkMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="bulk", trace="BulkTrace")]),
    "C06": dict(parts=[dict(crate=LITE, driver="bulk_proof", trace="BulkProofTrace")]),
    "C09": dict(parts=[dict(crate=LITE, driver="qmerge", trace="QueryMergeTrace"),
                       dict(crate=VF, driver="pqmerge", trace="QueryMergeTrace")]),
    "C10": dict(models=[dict(module="PathQueryMC", cfg="PathQueryMC.cfg", thorough_cfg="PathQueryMCT.cfg", emits=True)],
                parts=[dict(crate=VF, driver="pquery", trace="PathQueryTrace")]),
    "C17": dict(models=[dict(module="CostsMC", cfg="CostsMC.cfg", thorough_cfg="CostsMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="costs", trace="CostsTrace"),
                       dict(crate=VF, driver="hashes", trace="HashTrace")]),
    "C14": dict(models=[dict(module="PathMC", cfg="PathMC.cfg", thorough_cfg="PathMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="paths", trace="PathTrace")]),
    "C13": dict(models=[dict(module="ReferenceMC", cfg="ReferenceMC.cfg", thorough_cfg="ReferenceMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="refs", trace="ReferenceTrace")]),
    "C15": dict(models=[dict(module="FlagsMC", cfg="FlagsMC.cfg", thorough_cfg="FlagsMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="flags", trace="FlagsTrace")]),
    "C16": dict(models=[dict(module="FlagsMC", cfg="FlagsMC.cfg", thorough_cfg="FlagsMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="flagsplit", trace="FlagsTrace")]),
    "C12": dict(models=[dict(module="ElementMC", cfg="ElementMC.cfg", thorough_cfg="ElementMCT.cfg", emits=True)],
                parts=[dict(crate=VF, driver="element", trace="ElementTrace")]),
    "C11": dict(parts=[dict(crate=VF, driver="wire", trace="WireTrace")]),
    "C18": dict(models=[dict(module="MerkAttackMC", cfg="MerkAttackMC.cfg", thorough_cfg="MerkAttackMCT.cfg"),
                        dict(module="MerkAttackMC", cfg="MerkAttackGen.cfg", thorough_cfg="MerkAttackGenT.cfg", emits=True)],
                parts=[dict(crate=VF, driver="mproof", trace="MerkProofTrace")]),
    "C27": dict(models=[dict(module="GroveAttackMC", cfg="GroveAttackMC.cfg", emits=True)],
                parts=[dict(crate=VF, driver="grove", trace="GroveProofTrace")]),
    "C19": dict(models=[dict(module="MerkTreeMC", cfg="MerkTreeMC.cfg", thorough_cfg="MerkTreeMCT.cfg", emits=True, workers=6),
                        dict(module="MerkTreeMC", cfg="MerkTreeMCD.cfg", thorough_only=True, workers=4)],
                parts=[dict(crate=DB, driver="merk", trace="MerkTrace")]),
    "C20": dict(models=[dict(module="GroveMC", cfg="GroveMC.cfg", emits=True, workers=4),
                        dict(module="GroveMC", cfg="GroveMCT.cfg", thorough_only=True, workers=4)],
                parts=[dict(crate=DB, driver="gcontent", trace="GroveTrace")]),
    "C21": dict(models=[dict(module="GroveTxMC", cfg="GroveTxMC.cfg", thorough_cfg="GroveTxMCT.cfg", emits=True)],
                parts=[dict(crate=DB, driver="gtx", trace="GroveTrace")]),
    "C22": dict(models=[dict(module="GroveBatchMC", cfg="GroveBatchMC.cfg", thorough_cfg="GroveBatchMCT.cfg", emits=True)],
                parts=[dict(crate=DB, driver="gbatch", trace="GroveTrace")]),
    "C23": dict(parts=[dict(crate=DB, driver="gagg", trace="GroveTrace")]),
    "C24": dict(parts=[dict(crate=DB, driver="gref", trace="GroveTrace")]),
    "C25": dict(models=[dict(module="GroveQueryMC", cfg="GroveQueryMC.cfg", thorough_cfg="GroveQueryMCT.cfg", emits=True, env={"SUMS": "0"}, env_thorough={"SUMS": "0"})],
                parts=[dict(crate=DB, driver="gquery", trace="GroveTrace")]),
    "C26": dict(models=[dict(module="GroveProveMC", cfg="GroveProveMC.cfg", thorough_cfg="GroveProveMCT.cfg", emits=True),
                        dict(module="GroveLimitMC", cfg="GroveLimitMC.cfg", thorough_cfg="GroveLimitMCT.cfg", emits=True)],
                parts=[dict(crate=DB, driver="gprove", trace="GroveTrace"),
                       dict(crate=VF, driver="provable", trace="GroveProofTrace")]),
    "C34": dict(parts=[dict(crate=DB, driver="gappend", trace="GroveTrace"),
                       dict(crate=DB, driver="gappendtx", trace="GroveTrace"),
                       dict(crate=DB, driver="gappendprove", trace="GroveTrace")]),
    "C36": dict(models=[dict(module="GroveMoreMC", cfg="GroveMoreMCA.cfg", thorough_cfg="GroveMoreMCAT.cfg", emits=True)],
                parts=[dict(crate=DB, driver="maux", trace="GroveMoreTrace")]),
    "C30": dict(models=[dict(module="GroveMoreMC", cfg="GroveMoreMCF.cfg", thorough_cfg="GroveMoreMCFT.cfg", emits=True)],
                parts=[dict(crate=DB, driver="mcrash", trace="GroveMoreTrace")]),
    "C35": dict(models=[dict(module="GroveMoreMC", cfg="GroveMoreMCC.cfg", thorough_cfg="GroveMoreMCCT.cfg", emits=True)],
                parts=[dict(crate=DB, driver="mcp", trace="GroveMoreTrace")]),
    "C37": dict(models=[dict(module="GroveQueryMC", cfg="GroveQueryMC.cfg", emits=True, env={"SUMS": "1"}, env_thorough={"SUMS": "1"})],
                parts=[dict(crate=DB, driver="gaggsum", trace="GroveTrace"),
                       dict(crate=LITE, driver="qsum", trace="QueryMergeTrace"),
                       dict(crate=VF, driver="pqsum", trace="QueryMergeTrace")]),
    "C07": dict(models=[dict(module="CommitmentMC", cfg="CommitmentMC.cfg", thorough_cfg="CommitmentMCT.cfg")],
                parts=[dict(crate=DB, driver="commit", trace="CommitmentTrace")]),
    "C28": dict(parts=[dict(crate=DB, driver="gdelete", trace="GroveTrace")]),
    "C33": dict(models=[dict(module="TrunkMC", cfg="TrunkMC.cfg", thorough_cfg="TrunkMCT.cfg", emits=True)],
                parts=[dict(crate=VF, driver="trunk", trace="TrunkTrace")]),
    "C38": dict(models=[dict(module="ResultsMC", cfg="ResultsMC.cfg", thorough_cfg="ResultsMCT.cfg", emits=True)],
                parts=[dict(crate=VF, driver="results", trace="ResultsTrace")]),
    "C08": dict(models=[dict(module="QueryItemMC", cfg="QueryItemMC.cfg", thorough_cfg="QueryItemMCT.cfg", emits=True)],
                parts=[dict(crate=LITE, driver="qitem", trace="QueryItemTrace")]),
}


NOT_APPLICABLE = {}
