INIT Init
NEXT Next
VIEW View
