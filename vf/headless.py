"""A display-less Tk.

The widgets of the GUI are instantiated for real, over a real Tcl interpreter
in which the Tk commands are stand-ins: every widget command exists, stores
its options and answers configuration queries, and draws nothing. Tcl
variables, traces and callbacks are the genuine ones, so that the code that
reads and writes the entries runs as it does with a screen."""
import tkinter

TCL = r"""
set tk_version 8.6
set tk_patchLevel 8.6.14
array set vf_opt {}
array set vf_cls {}
set vf_children {}
proc vf_norm {o} { return [string trimleft $o -] }
proc vf_config {path arglist} {
  global vf_opt
  if {[llength $arglist] == 0} { return {} }
  if {[llength $arglist] == 1} {
    set k "$path,[vf_norm [lindex $arglist 0]]"
    set o [vf_norm [lindex $arglist 0]]
    if {[info exists vf_opt($k)]} {
      return [list -$o $o $o {} $vf_opt($k)]
    }
    return [list -$o $o $o {} {}]
  }
  foreach {k v} $arglist { set vf_opt($path,[vf_norm $k]) $v }
  return {}
}
proc vf_cget {path o} {
  global vf_opt
  set k "$path,[vf_norm $o]"
  if {[info exists vf_opt($k)]} { return $vf_opt($k) }
  switch -- [vf_norm $o] {
    width { return 640 }
    height { return 360 }
    background - bg { return white }
    foreground - fg { return black }
  }
  return {}
}
proc vf_make {cls path args} {
  global vf_cls vf_children
  set vf_cls($path) $cls
  lappend vf_children $path
  vf_config $path $args
  proc $path {sub args} [format {
    set p {%s}
    switch -- $sub {
      configure { return [vf_config $p $args] }
      cget { return [vf_cget $p [lindex $args 0]] }
      bbox { return {0 0 10 10} }
      create { return 1 }
      index { return 0 }
      invoke { return {} }
      default { return {} }
    }
  } $path]
  return $path
}
foreach c {frame label button checkbutton canvas scrollbar entry menu
           menubutton toplevel radiobutton
           ttk::frame ttk::label ttk::button ttk::checkbutton
           ttk::scrollbar ttk::entry ttk::menubutton ttk::notebook
           ttk::progressbar ttk::combobox ttk::separator ttk::scale} {
  if {[string match ttk::* $c]} { namespace eval ttk {} }
  proc ::$c {path args} [format {return [vf_make %s $path {*}$args]} $c]
}
proc . {sub args} {
  switch -- $sub {
    configure { return [vf_config . $args] }
    cget { return [vf_cget . [lindex $args 0]] }
  }
  return {}
}
proc vf_parent {path} {
  if {$path eq "."} { return {} }
  set i [string last . $path]
  if {$i <= 0} { return . }
  return [string range $path 0 [expr {$i - 1}]]
}
proc winfo {sub args} {
  global vf_children
  set p [lindex $args end]
  switch -- $sub {
    parent { return [vf_parent $p] }
    toplevel { return . }
    children {
      set r {}
      foreach c $vf_children {
        if {[vf_parent $c] eq $p} { lappend r $c }
      }
      return $r
    }
    exists - ismapped - viewable { return 1 }
    class { return Frame }
    rgb { return {65535 65535 65535} }
    fpixels { return 72.0 }
    pixels { return 24 }
    width - reqwidth { return 640 }
    height - reqheight { return 360 }
    rootx - rooty - x - y { return 0 }
    screenwidth { return 1920 }
    screenheight { return 1080 }
    depth { return 24 }
  }
  return 0
}
proc bind {args} { return {} }
proc destroy {args} { return {} }
proc image {sub args} {
  if {$sub eq "create"} { return [lindex $args 1] }
  return {}
}
proc font {sub args} {
  switch -- $sub { create { return vffont } actual { return 10 } }
  return {}
}
proc tk {args} { return 1.0 }
foreach c {grid pack place wm focus lower raise option event clipboard
           selection grab tkwait bindtags bell send tk_messageBox
           ttk::style ttk::setTheme tk_setPalette} {
  if {[info commands ::$c] eq "" || $c ne "raise"} {
    proc ::$c {args} { return {} }
  }
}
"""


def boot(tk):
  tk.eval(TCL)
  return tk


def root():
  """A real ``tkinter.Tk`` without the Tk library"""
  r = tkinter.Tk(useTk=False)
  boot(r.tk)
  r._tkloaded = True
  # the default root is what ``_nametowidget`` and friends rely on
  r._windowingsystem_cached = "x11"
  return r


class FakeImage:
  """Stand-in for ``PIL.ImageTk.PhotoImage``"""
  n = 0

  def __init__(self, image=None, size=None, **kw):
    FakeImage.n += 1
    self._name = f"vfimg{FakeImage.n}"
    self._size = getattr(image, "size", (24, 24))

  def __str__(self):
    return self._name

  def width(self):
    return self._size[0]

  def height(self):
    return self._size[1]

  def paste(self, *a, **k):
    pass


def patches():
  """Patches of the drawing back ends, to be entered by the caller"""
  import contextlib
  from unittest import mock

  import PIL.ImageTk
  from matplotlib.backends import _backend_tk
  st = contextlib.ExitStack()
  st.enter_context(mock.patch.object(PIL.ImageTk, "PhotoImage", FakeImage))
  st.enter_context(mock.patch.object(_backend_tk, "blit",
                                     lambda *a, **k: None))
  return st


def close(r):
  """Dispose of the interpreter and of the Python side of its widgets"""
  for c in list(getattr(r, "children", {}).values()):
    try:
      c.destroy()
    except Exception:
      pass
  try:
    for n in list(r.tk._tclCommands or ()):
      r.tk.deletecommand(n)
  except Exception:
    pass
  tkinter._default_root = None


class Gui:
  """The notebook of the program with some of its tabs, on a stubbed Tk.

  ``answers`` maps the name of a dialog to its answer (a value or a callable
  of the arguments of the dialog); every dialog is recorded in ``dialogs``"""

  DIALOGS = (("tkinter.messagebox", "showerror", "ok"),
             ("tkinter.messagebox", "showinfo", "ok"),
             ("tkinter.messagebox", "showwarning", "ok"),
             ("tkinter.messagebox", "askyesno", False),
             ("tkinter.filedialog", "askopenfilename", ""),
             ("tkinter.filedialog", "asksaveasfilename", ""))

  def __init__(self, path, tabs=("settings",), answers=None):
    self.path = path
    self.names = tabs
    self.answers = dict(answers or {})
    self.dialogs = []
    self.quits = 0

  def _dialog(self, name, default):

    def dialog(*args, **kwargs):
      self.dialogs.append((name, args, kwargs))
      a = self.answers.get(name, default)
      return a(*args, **kwargs) if callable(a) else a

    return dialog

  def __enter__(self):
    import contextlib
    import logging
    from unittest import mock

    from sample.widgets import logging as slog
    from sample.widgets import responsive, userfiles
    self.stack = contextlib.ExitStack()
    try:
      self.stack.enter_context(patches())
      for m, n, d in self.DIALOGS:
        self.stack.enter_context(mock.patch(f"{m}.{n}", self._dialog(n, d)))
      self.root = root()
      self.errors = []
      self.root.report_callback_exception = self._error
      self.stack.callback(close, self.root)
      self.stack.callback(logging.disable, logging.root.manager.disable)
      logging.disable(logging.CRITICAL)
      import warnings
      self.stack.enter_context(warnings.catch_warnings())
      warnings.simplefilter("ignore")
      self.master = responsive.Notebook(self.root)
      self.root.should_reload = False
      self.master.quit = self._quit
      d = userfiles.UserDir(self.path)
      self.master.persistent_dir = d
      self.master.settings_file = d.user_file("settings.json")
      self.master.audio_cache_file = d.user_file("audio.cache")
      for n in self.names:
        setattr(self, n, self.make(n))
    except BaseException:
      self.stack.close()
      raise
    return self

  def _error(self, exc, val, tb):
    import traceback
    f = traceback.extract_tb(tb)[-1]
    self.errors.append(f"{exc.__name__}: {val} at {f.filename}:{f.name}")

  def no_errors(self, mon, det=""):
    """No callback run by the interpreter raised"""
    mon.check("callback-raised", not self.errors, f"{self.errors[:3]} {det}")
    self.errors.clear()

  def _quit(self):
    self.quits += 1

  def make(self, n):
    from sample.widgets import analysis, audioload, settings
    return {"settings": settings.SettingsTab,
            "load": audioload.AudioLoadTab,
            "analysis": analysis.AnalysisTab}[n](self.master)

  def __exit__(self, *exc):
    self.stack.close()
    return False


def stub_everything(stack):
  """Make ``tkinter.Tk()`` itself work without a display: to be used in a
  process of its own, running the whole program. Returns the list of the root
  windows created"""
  from unittest import mock
  roots = []
  original = tkinter.Tk.__init__

  def init(self, *a, **k):
    original(self, useTk=False)
    boot(self.tk)
    self.tk.eval("proc unknown {args} {return {}}; "
                 "proc package {args} {return 8.6}")
    self._tkloaded = True
    self._windowingsystem_cached = "x11"
    roots.append(self)

  stack.enter_context(mock.patch.object(tkinter.Tk, "__init__", init))
  stack.enter_context(patches())
  return roots
