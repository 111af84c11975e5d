------------------------------ MODULE ServerMC ------------------------------
EXTENDS Server
Good == <<"grpc", "service", "sequence", "index", "dictionary", "db">>
ServiceFirst == <<"service", "grpc", "sequence", "index", "dictionary", "db">>
IndexFirst == <<"grpc", "index", "service", "sequence", "dictionary", "db">>
=============================================================================
