from vlib import *
import mesh, store, dom, geo, para, app

# property -> sessions in the quick run
MESH = {"C01": 400, "C02": 400, "C03": 400, "C04": 400, "C05": 400, "C06": 300, "C07": 400, "C08": 300, "C09": 300,
        "C10": 300, "C14": 400, "C16": 400, "C19": 300, "C20": 300}

# generative models of the specification itself: quick, thorough
MODELS = {"C01": (("MeshModel", "Quad"), ("MeshModel", "QuadDeep")),
          "C03": (("MeshModel", "Penta"), ("MeshModel", "HexaDeep")),
          "C08": (("MeshModel", "Tri3"), ("MeshModel", "StackDeep")),
          "C09": (("MeshModel", "Pair"), ("MeshModel", "PairDeep")),
          "C19": (("Session", "MC"), ("Session", "MC"))}

def run(prop):
    rep = Report(prop, "model_checking")
    k = 1 if rep.tier == "quick" else 12
    if prop in MODELS:
        mod, cfg = MODELS[prop][k > 1]
        rep.add(model_check(mod, mod + cfg + ".cfg", mod + " (" + cfg + ")", timeout=3000))
    if prop in MESH:
        for j in range(2*k):
            mesh.mesh_check(rep, prop, MESH[prop], seed0=j if j < k else j+300)
            if rep.viol: break
    if prop == "C19":
        for j in range(k): mesh.twin_check(rep, 120, seed0=j)
    if prop == "C11":
        for j in range(k): store.store_check(rep, 800, seed0=j, exhaustive=j == 0)
    if prop in ("C12", "C18", "C21"):
        for j in range(k): dom.dom_check(rep, prop, 1500, seed0=j, exhaustive=j == 0)
    if prop == "C13":
        for j in range(k): dom.dom_check(rep, prop, 900, seed0=j)
    if prop == "C17":
        geo.geo_check(rep)
        if k > 1: geo.geo_check(rep, deep=True)
    if prop == "C22":
        for j in range(k): para.para_check(rep, prop, 600, seed0=j)
    if prop == "C15":
        for j in range(k): app.app_check(rep, prop, 600, seed0=j)
    return finish(rep)
