SPECIFICATION Spec
CONSTANT Vals = {0, 1, 2, 9, 10, 99, 100, 9999, 10000, 10001, 29999, 65535, 65536, 99999, 100000000, 99999999, 123456789, 1000000000, 1073741823}
INVARIANTS SumOk ProdOk DiffOk CmpOk Laws DivOk Digits CmpXOk PowOk
CHECK_DEADLOCK FALSE
