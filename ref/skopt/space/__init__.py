from .space import *
