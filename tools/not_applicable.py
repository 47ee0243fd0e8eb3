NA = {}
HOOKS = ['431bbb2d70c77e7c98ee2492645d913aa7c694c1']
