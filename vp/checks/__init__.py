from . import laws_check, args_check, struct_check, table_check, quantile_check, ziggurat_check, sampling_check, relation_check, monotone_check, binomial_check, float_check, accuracy_check, totality_check

CHECKS = {}
for m in (laws_check, args_check, struct_check, table_check, quantile_check, ziggurat_check, sampling_check, relation_check, monotone_check, binomial_check, float_check, accuracy_check, totality_check):
    CHECKS.update(m.CHECKS)
