------------------------------ MODULE MCOrders -------------------------------
EXTENDS Orders
L5 == <<5>>
L6 == <<6>>
L7 == <<7>>
L42 == <<4, 2>>
L33 == <<3, 3>>
=============================================================================
