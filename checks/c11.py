"""tokenize: every pattern of the families x all subjects, whole sequences, all increment/copy histories"""
import enumops
def check(ck): enumops.check(ck, 'k', 'tokenize')
