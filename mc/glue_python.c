#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdio.h>
#include <string.h>
typedef struct { const char *k, *v; } libarg;
enum { OP_NEW, OP_SVC, OP_HOST, OP_CMD, OP_DEL, OP_GET, OP_RAW, OP_INIT };
extern PyObject *PyInit_nscang(void);
static PyObject *O[8], *cls;

void
glue_start(void)
{
	PyPreConfig pc;
	PyConfig c;
	PyObject *m;

	PyPreConfig_InitIsolatedConfig(&pc);
	pc.allocator = PYMEM_ALLOCATOR_MALLOC;
	pc.utf8_mode = 1;
	Py_PreInitialize(&pc);
	PyImport_AppendInittab("nscang", PyInit_nscang);
	PyConfig_InitIsolatedConfig(&c);
	c.site_import = 0;
	if (PyStatus_Exception(Py_InitializeFromConfig(&c)) || (m = PyImport_ImportModule("nscang")) == NULL
	    || (cls = PyObject_GetAttrString(m, "NSCAngNotifyer")) == NULL) {
		PyErr_Print();
		fprintf(stderr, "cannot start Python\n");
		exit(2);
	}
	PyConfig_Clear(&c);
}

static const char *
name(int op, const char *k)
{
	if (op != OP_NEW && !strcmp(k, "node_name"))
		return "host_name";
	return k;
}

const char *
glue_call(int op, int obj, const libarg *a, int style)
{
	static char *msg;
	PyObject *kw, *args, *f = NULL, *r = NULL, *t, *v, *tb, *s;

	free(msg);
	msg = NULL;
	if (op == OP_DEL) {
		Py_CLEAR(O[obj]);
		return NULL;
	}
	if (op == OP_GET) {
		r = PyObject_GetAttrString(O[obj], a->k);
		s = r ? PyObject_Str(r) : NULL;
		if (s)
			msg = strdup(PyUnicode_AsUTF8(s));
		Py_XDECREF(s);
		Py_XDECREF(r);
		PyErr_Clear();
		return msg;
	}
	kw = PyDict_New();
	args = PyTuple_New(0);
	for (; a && a->k; a++) {
		PyObject *x;

		if (!strcmp(a->k, "port") || !strcmp(a->k, "return_code") || !strcmp(a->k, "timeout"))
			x = a->v ? PyLong_FromString(a->v, NULL, 10) : Py_NewRef(Py_None);
		else
			x = a->v ? PyUnicode_DecodeUTF8(a->v, (Py_ssize_t)strlen(a->v), "strict") : Py_NewRef(Py_None);
		PyDict_SetItemString(kw, name(op, a->k), x);
		Py_DECREF(x);
	}
	if (op == OP_RAW) {
		Py_DECREF(args);
		args = PyTuple_Pack(1, cls);
		PyDict_Clear(kw);
		f = PyObject_GetAttrString(cls, "__new__");
	} else
		f = op == OP_NEW ? Py_NewRef(cls) : PyObject_GetAttrString(O[obj], op == OP_SVC ? "svc_result" : op == OP_INIT ? "__init__" : "host_result");
	r = PyObject_Call(f, args, kw);
	Py_DECREF(f);
	Py_DECREF(args);
	Py_DECREF(kw);
	if (r != NULL) {
		if (op == OP_NEW || op == OP_RAW)
			O[obj] = r;
		else
			Py_DECREF(r);
		if (PyErr_Occurred()) {
			PyErr_Clear();
			return strcpy(msg = malloc(60), "a result was returned with an exception set");
		}
		return NULL;
	}
	PyErr_Fetch(&t, &v, &tb);
	s = v ? PyObject_Str(v) : NULL;
	msg = strdup(s && PyUnicode_AsUTF8(s) ? PyUnicode_AsUTF8(s) : "error without a message");
	PyErr_Clear();
	Py_XDECREF(s);
	Py_XDECREF(t);
	Py_XDECREF(v);
	Py_XDECREF(tb);
	return msg;
}
