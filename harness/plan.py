"""Which models, generators, drivers and trace specifications decide each property."""

PLAN = {
    "C08": dict(
        mc=[dict(module="MC_BiotSavart", cfg_thorough="MC_BiotSavart_deep.cfg")],
        traces=[dict(driver="drv_kernel", spec="T_Kernel", shards=2, shards_thorough=8)],
        need=["collapsed-law", "expanded-law", "ring-center", "horseshoe-finite-leg"],
    ),
}
_GEOM = dict(driver="drv_geom", spec="T_Geometry", shards=3, shards_thorough=8)
PLAN["C01"] = dict(mc=[dict(module="MC_Mesh", cfg_thorough="MC_Mesh_deep.cfg")], traces=[_GEOM], need=["mesh-corners", "mesh-mirrored", "mesh-indices"])
PLAN["C03"] = dict(mc=[dict(module="MC_Mesh", cfg_thorough="MC_Mesh_deep.cfg")], traces=[_GEOM], need=["panel-area", "wing-mean-aerodynamic-chord", "airplane-s-ref"])
PLAN["C02"] = dict(mc=[dict(module="MC_Airfoils", cfg_thorough="MC_Airfoils_deep.cfg")], traces=[dict(driver="drv_airfoil", spec="T_Airfoil", shards=6, shards_thorough=8)],
                   need=["naca-outline", "library-outline", "camber-sample", "flap-behind-rotated", "rejects-name"])
_UVLM = dict(driver="drv_uvlm", spec="T_Uvlm", shards=8, shards_thorough=8)
_MCU = dict(module="MC_Uvlm", cfg_thorough="MC_Uvlm_deep.cfg", workers=4)
for _p, _need in (("C09", ["flow-tangency", "vortex-placement"]), ("C10", ["panel-force", "panel-moment"]),
                  ("C11", ["total-force", "moment-coefficients", "panel-coefficients"]),
                  ("C12", ["wake-convected", "wake-strengths", "wake-ages"]),
                  ("C13", ["final-values", "results-gated", "options-same-finals"]),
                  ("C19", ["stream-follows-flow", "stream-seeds"])):
    PLAN[_p] = dict(mc=[_MCU], traces=[_UVLM], need=_need)
PLAN["C13"]["mc"] = [_MCU, dict(module="MC_TimePlan", cfg_thorough="MC_TimePlan_deep.cfg")]
_MOTION = dict(driver="drv_motion", spec="T_Motion", shards=8,
               gen=dict(module="G_TimePlan", cfg="G_TimePlan.cfg", cfg_thorough="G_TimePlan_deep.cfg"))
PLAN["C05"] = dict(mc=[dict(module="MC_Motion", cfg_thorough="MC_Motion_deep.cfg")], traces=[_MOTION],
                   need=["section-position", "section-twist", "flight-speed", "snapshot-lattice"])
PLAN["C06"] = dict(mc=[dict(module="MC_Snapshots", cfg_thorough="MC_Snapshots_deep.cfg"), dict(module="MC_TimePlan", cfg_thorough="MC_TimePlan_deep.cfg")], traces=[_MOTION],
                   need=["sections-carried-over", "still-motion-reproduces-base", "snapshots-separate"])
PLAN["C07"] = dict(mc=[dict(module="MC_TimePlan", cfg_thorough="MC_TimePlan_deep.cfg")], traces=[_MOTION],
                   need=["step-count", "averaging-window", "pairing"])
PLAN["C14"] = dict(mc=[dict(module="MC_History", cfg_thorough="MC_History_deep.cfg")],
                   traces=[dict(driver="drv_history", spec="T_History", shards=8,
                                gen=dict(module="G_History", cfg="G_History.cfg", cfg_thorough="G_History_deep.cfg"))],
                   need=["loads-as-fresh", "finals-as-fresh", "solver-state-as-fresh", "definitions-unchanged"])
PLAN["C04"] = dict(mc=[dict(module="MC_Building", cfg_thorough="MC_Building_deep.cfg"), dict(module="MC_TimePlan", cfg_thorough="MC_TimePlan_deep.cfg")],
                   traces=[dict(driver="drv_validity", spec="T_Validity", shards=8,
                                gen=dict(module="G_Faults", cfg="G_Faults.cfg", cfg_thorough="G_Faults_deep.cfg"))],
                   need=["accepts-valid", "rejects-ill-formed", "reported-where-it-occurs"])
PLAN["C15"] = dict(mc=[dict(module="MC_Trim", cfg_thorough="MC_Trim_deep.cfg")],
                   traces=[dict(driver="drv_trim", spec="T_Trim", shards=8,
                                gen=dict(module="G_Trim", cfg="G_Trim.cfg", cfg_thorough="G_Trim_deep.cfg"))],
                   need=["answer-is-trimmed", "answer-within-bounds", "nothing-only-if-none-acceptable",
                         "rejects-before-evaluating", "objective-is-residual",
                         "evaluates-the-given-airplane", "leaves-the-airplane"])
PLAN["C16"] = dict(mc=[dict(module="MC_Convergence", cfg_thorough="MC_Convergence_deep.cfg")],
                   traces=[dict(driver="drv_convergence", spec="T_Convergence", shards=8,
                                gen=dict(module="G_Convergence", cfg="G_Convergence.cfg", cfg_thorough="G_Convergence_deep.cfg"))],
                   need=["answer-is-just-before", "nothing-only-when-exhausted", "meshes-setting-under-test", "length-under-test",
                         "refuses-unknown-method"])
PLAN["C18"] = dict(mc=[dict(module="MC_Symmetry", cfg_thorough="MC_Symmetry_deep.cfg", workers=4)],
                   traces=[dict(driver="drv_symmetry", spec="T_Symmetry", shards=8,
                                gen=dict(module="G_Symmetry", cfg="G_Symmetry.cfg", cfg_thorough="G_Symmetry_deep.cfg"))],
                   need=["symmetric-no-lateral-loads"] + [f"{k}-loads" for k in (
                       "mirror", "move", "airplanes", "wings", "rename", "density", "speed", "size", "unfold", "turn", "split")])
PLAN["C17"] = dict(mc=[dict(module="MC_Output", cfg_thorough="MC_Output_deep.cfg")],
                   traces=[dict(driver="drv_output", spec="T_Output", shards=8,
                                gen=dict(module="G_Output", cfg="G_Output.cfg", cfg_thorough="G_Output_deep.cfg"))],
                   need=["report-values", "plot-values", "surface-panels", "surface-wake", "surface-scalars", "colours-are-coefficients",
                         "page-shows-everything", "picture-saved", "every-step-shown", "showing-changes-nothing"])
NOT_APPLICABLE = {}
