"""Private copy of the system pybind11 headers, adapted so that the *unchanged*
sources of /repo link into an importable extension with the interpreter that is
available offline (Python 3.12 + numpy 2):

* PYBIND11_MODULE accepts the third argument main.cpp passes
  (py::mod_gil_not_used(), added in pybind11 2.13; the box has 2.11);
* the numpy C structures / private module names follow numpy 2.

Nothing of pyinterp is touched here.
"""
import os
import shutil

SRC = '/usr/include/pybind11'


def _sub(text, old, new, count=1):
    if old not in text:
        raise RuntimeError(f'overlay: pattern not found: {old!r}')
    return text.replace(old, new) if count == 0 else text.replace(
        old, new, count)


def make(dst):
    root = os.path.join(dst, 'pybind11')
    stamp = os.path.join(dst, '.ok4')
    if os.path.exists(stamp):
        return dst
    tmp = dst + f'.tmp{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(SRC, os.path.join(tmp, 'pybind11'))
    path = os.path.join(tmp, 'pybind11', 'numpy.h')
    with open(path) as f:
        text = f.read()
    text = _sub(
        text, """    char flags;
    int type_num;
    int elsize;
    int alignment;
    char *subarray;
    PyObject *fields;
    PyObject *names;
""", """    char former_flags;
    int type_num;
    std::uint64_t flags;
    Py_ssize_t elsize;
    Py_ssize_t alignment;
    PyObject *metadata;
    Py_ssize_t hash;
    void *reserved_null[2];
    char *subarray;
    PyObject *fields;
    PyObject *names;
""")
    text = _sub(text, 'API_PyArray_CopyInto = 82', 'API_PyArray_CopyInto = 50')
    text = _sub(text, '        API_PyArray_GetArrayParamsFromObject = 278,\n',
                '')
    text = _sub(text,
                '        DECL_NPY_API(PyArray_GetArrayParamsFromObject);\n', '')
    text = _sub(text, 'numpy.core.multiarray', 'numpy._core.multiarray', 0)
    text = _sub(text, 'numpy.core._internal', 'numpy._core._internal', 0)
    text = _sub(
        text,
        'int alignment() const { return detail::array_descriptor_proxy(m_ptr)->alignment; }',
        'int alignment() const { return (int) detail::array_descriptor_proxy(m_ptr)->alignment; }'
    )
    text = _sub(
        text,
        'char flags() const { return detail::array_descriptor_proxy(m_ptr)->flags; }',
        'char flags() const { return (char) detail::array_descriptor_proxy(m_ptr)->flags; }'
    )
    with open(path, 'w') as f:
        f.write(text)
    path = os.path.join(tmp, 'pybind11', 'detail', 'common.h')
    with open(path) as f:
        text = f.read()
    text = _sub(text, '#define PYBIND11_MODULE(name, variable) ',
                '#define PYBIND11_MODULE(name, variable, ...) ')
    with open(path, 'w') as f:
        f.write(text)
    open(os.path.join(tmp, '.ok4'), 'w').close()
    shutil.rmtree(dst, ignore_errors=True)
    os.rename(tmp, dst)
    return dst
