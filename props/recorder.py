"""Observes what a run writes: NGSolve's writers, csv rows, pickles, and the files they keep open."""
import contextlib
import os
import weakref


class Recorder:
    def __init__(self, state=lambda: None):
        self.events = []            # (kind, name, label, state)
        self.state = state
        self.files = []             # csv files
        self.writers = []           # (name, weak reference to the vtk writer)

    def add(self, kind, name, label=None, data=None):
        self.events.append((kind, str(name), label, self.state() if data is None else data))

    def of(self, kind, name=None):
        return [e for e in self.events if e[0] == kind and (name is None or e[1] == name)]

    @contextlib.contextmanager
    def active(self):
        import csv
        import pickle
        import ngsolve as ngs
        rec = self

        class VTKOutput:
            def __init__(self, ma=None, coefs=(), names=(), filename='vtkout', subdivision=0, **kw):
                self.name = os.path.relpath(filename)
                self.fields = dict(zip(names, coefs))
                rec.writers.append((self.name, weakref.ref(self)))

            def Do(self, time=-1, drawelems=None, **kw):
                rec.add('vtk', self.name, time)
                return self.name

        class Writer:
            def __init__(self, file, *a, **kw):
                self.file = file
                rec.files.append(file)

            def writerow(self, row):
                if self.file.closed:
                    raise ValueError("write to a closed file")
                rec.add('csv', os.path.relpath(self.file.name), list(row))

            def writerows(self, rows):
                for r in rows:
                    self.writerow(r)
        save = ngs.GridFunction.Save
        keep = ngs.VTKOutput, csv.writer, pickle.dump

        def Save(gfu, filename, *a, **kw):
            rec.add('gfu', os.path.relpath(str(filename)), None, [gfu.vec[i] for i in range(len(gfu.vec))])
            return save(gfu, filename, *a, **kw)

        def dump(obj, file, *a, **kw):
            rec.add('pickle', os.path.relpath(file.name), obj)
        try:
            ngs.GridFunction.Save = Save
            ngs.VTKOutput, csv.writer, pickle.dump = VTKOutput, Writer, dump
            yield self
        finally:
            ngs.GridFunction.Save = save
            ngs.VTKOutput, csv.writer, pickle.dump = keep
