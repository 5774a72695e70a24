; No function writes into memory it does not own. The environment's functions are left out: they
; exist to record variables (C20).
(frames C10 MakeBasicEnvironment nextVariableID NewVariable NewContinuousVariable NewBinaryVariable NewVariableVector NewVariableMatrix NewVariableMatrixClassic
 BasicEnvironment.TrackVariable BasicEnvironment.AllTrackedVariables BasicEnvironment.GetName)
