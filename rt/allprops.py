from core import PROPS
import trans,mods,mods2,pure
