----------------------------- MODULE MCPipeline ------------------------------
EXTENDS Pipeline
L3 == <<3>>
L4 == <<4>>
L21 == <<2, 1>>
L22 == <<2, 2>>
L121 == <<1, 2, 1>>
=============================================================================
