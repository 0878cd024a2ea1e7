versions = ['verifops-1']


def versionlist():
    return list(versions)
