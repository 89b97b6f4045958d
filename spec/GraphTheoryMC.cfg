CONSTANTS NV = 3
          Ws <- WsA
          Dir = TRUE
SPECIFICATION Spec
INVARIANTS Orders Paths Cycles Dags
