from props import P
CHECKS = {p["id"]: dict(level="model_checking", runs=p["runs"],
                        assumptions=p["assumptions"])
          for p in P if p["runs"]}
