CONSTANTS NV = 4
          Ws <- WsB
          Dir = TRUE
SPECIFICATION Spec
INVARIANTS Orders Paths Cycles Dags
