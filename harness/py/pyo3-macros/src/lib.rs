//! The attribute macros of the stand-in for PyO3.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::*;

enum Opt {
    Flag(Ident),
    Value(Ident, Expr),
    Signature(Vec<Sig>),
}
enum Sig {
    Star,
    Slash,
    Name(Ident, Option<Expr>),
}
impl Parse for Sig {
    fn parse(i: ParseStream) -> Result<Self> {
        if i.peek(Token![*]) {
            i.parse::<Token![*]>()?;
            return Ok(Sig::Star);
        }
        if i.peek(Token![/]) {
            i.parse::<Token![/]>()?;
            return Ok(Sig::Slash);
        }
        let n: Ident = i.parse()?;
        let d = if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        Ok(Sig::Name(n, d))
    }
}
impl Parse for Opt {
    fn parse(i: ParseStream) -> Result<Self> {
        let n: Ident = syn::ext::IdentExt::parse_any(i)?;
        if !i.peek(Token![=]) {
            return Ok(Opt::Flag(n));
        }
        i.parse::<Token![=]>()?;
        if n == "signature" {
            let c;
            parenthesized!(c in i);
            let p = Punctuated::<Sig, Token![,]>::parse_terminated(&c)?;
            return Ok(Opt::Signature(p.into_iter().collect()));
        }
        Ok(Opt::Value(n, i.parse()?))
    }
}
struct Opts(Vec<Opt>);
impl Parse for Opts {
    fn parse(i: ParseStream) -> Result<Self> {
        Ok(Opts(Punctuated::<Opt, Token![,]>::parse_terminated(i)?.into_iter().collect()))
    }
}
impl Opts {
    fn flag(&self, s: &str) -> bool {
        self.0.iter().any(|o| matches!(o, Opt::Flag(n) if n == s))
    }
    fn value(&self, s: &str) -> Option<String> {
        self.0.iter().find_map(|o| match o {
            Opt::Value(n, Expr::Lit(ExprLit { lit: Lit::Str(v), .. })) if n == s => Some(v.value()),
            _ => None,
        })
    }
}

fn is(a: &Attribute, n: &str) -> bool {
    a.path().is_ident(n)
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let opts = parse_macro_input!(attr as Opts);
    let mut item = parse_macro_input!(item as ItemStruct);
    let name = item.ident.clone();
    let pyname = opts.value("name").unwrap_or_else(|| name.to_string());
    let mut extra = vec![];
    if opts.flag("eq") {
        extra.push(quote! {
            {
                unsafe extern "C" fn tr(slf: *mut ::pyo3::ffi::PyObject, args: *mut ::pyo3::ffi::PyObject, kwargs: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {
                    ::pyo3::impl_::enter(|py| {
                        let v = ::pyo3::impl_::bind(py, "__eq__", &[::pyo3::impl_::Param { name: "other", keyword_only: false, required: true }], args, kwargs)?;
                        let me: &#name = unsafe { ::pyo3::impl_::contents(slf) };
                        let r = match ::pyo3::impl_::arg::<::pyo3::PyRef<'_, #name>>(v[0].as_ref().unwrap(), "other") {
                            Ok(o) => me == &*o,
                            Err(_) => false,
                        };
                        Ok(::pyo3::IntoPyObjectExt::into_bound_py_any(r, py)?.into_ptr())
                    }, ::std::ptr::null_mut())
                }
                v.push(::pyo3::impl_::Item::Method("__eq__", tr));
            }
        });
    }
    let all = opts.flag("get_all");
    for f in item.fields.iter_mut() {
        let get = all || f.attrs.iter().any(|a| is(a, "pyo3"));
        f.attrs.retain(|a| !is(a, "pyo3"));
        let Some(id) = &f.ident else { continue };
        if get {
            let n = id.to_string();
            extra.push(quote! {
                {
                    unsafe extern "C" fn tr(slf: *mut ::pyo3::ffi::PyObject, _c: *mut ::std::ffi::c_void) -> *mut ::pyo3::ffi::PyObject {
                        ::pyo3::impl_::enter(|py| {
                            let me: &#name = unsafe { ::pyo3::impl_::contents(slf) };
                            Ok(::pyo3::IntoPyObjectExt::into_bound_py_any(me.#id.clone(), py)?.into_ptr())
                        }, ::std::ptr::null_mut())
                    }
                    v.push(::pyo3::impl_::Item::Getter(#n, tr));
                }
            });
        }
    }
    quote! {
        #item
        impl ::pyo3::PyClass for #name {
            const NAME: &'static str = #pyname;
            fn type_object(py: ::pyo3::Python<'_>) -> *mut ::pyo3::ffi::PyTypeObject {
                static T: ::std::sync::atomic::AtomicPtr<::pyo3::ffi::PyTypeObject> = ::std::sync::atomic::AtomicPtr::new(::std::ptr::null_mut());
                let t = T.load(::std::sync::atomic::Ordering::Acquire);
                if !t.is_null() {
                    return t;
                }
                #[allow(unused_imports)]
                use ::pyo3::impl_::{Items as _, NoItems as _};
                #[allow(unused_mut)]
                let mut v = ::pyo3::impl_::Collector::<#name>::new().items();
                #(#extra)*
                let t = ::pyo3::impl_::build_type::<#name>(py, v);
                T.store(t, ::std::sync::atomic::Ordering::Release);
                t
            }
        }
        impl ::pyo3::types::PyTypeInfo for #name {
            fn type_ptr(py: ::pyo3::Python<'_>) -> *mut ::pyo3::ffi::PyTypeObject {
                <Self as ::pyo3::PyClass>::type_object(py)
            }
        }
        impl<'py> ::pyo3::IntoPyObject<'py> for #name {
            type Target = Self;
            type Output = ::pyo3::Bound<'py, Self>;
            type Error = ::pyo3::PyErr;
            fn into_pyobject(self, py: ::pyo3::Python<'py>) -> ::std::result::Result<Self::Output, ::pyo3::PyErr> {
                ::pyo3::Bound::new(py, self)
            }
        }
    }
    .into()
}

fn last(t: &Type) -> Option<&PathSegment> {
    match t {
        Type::Path(p) => p.path.segments.last(),
        _ => None,
    }
}
fn generic(s: &PathSegment) -> Option<&Type> {
    match &s.arguments {
        PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| match g {
            GenericArgument::Type(t) => Some(t),
            _ => None,
        }),
        _ => None,
    }
}
/// Replaces every lifetime by `'_`.
fn anon(t: &Type) -> T2 {
    fn walk(ts: T2, out: &mut Vec<proc_macro2::TokenTree>) {
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                proc_macro2::TokenTree::Punct(p) if p.as_char() == '\'' => {
                    it.next();
                    out.extend(quote!('_));
                }
                proc_macro2::TokenTree::Group(g) => {
                    let mut v = vec![];
                    walk(g.stream(), &mut v);
                    out.push(proc_macro2::Group::new(g.delimiter(), v.into_iter().collect()).into());
                }
                t => out.push(t),
            }
        }
    }
    let mut v = vec![];
    walk(quote!(#t), &mut v);
    v.into_iter().collect()
}

struct Call {
    /// the parameter table, statements that make the arguments, and the arguments
    params: Vec<T2>,
    lets: Vec<T2>,
    args: Vec<T2>,
}

/// Plans the call of a function. `bound` says how many leading inputs are already given by `args`.
fn plan(sig: &Signature, skip: usize, first: Vec<T2>, signature: Option<Vec<Sig>>) -> Call {
    let mut c = Call { params: vec![], lets: vec![], args: first };
    let mut order: Vec<(String, bool, Option<Expr>)> = vec![];
    let mut explicit = false;
    if let Some(s) = signature {
        explicit = true;
        let mut kw = false;
        for x in s {
            match x {
                Sig::Star => kw = true,
                Sig::Slash => {}
                Sig::Name(n, d) => order.push((n.to_string(), kw, d)),
            }
        }
    }
    let mut names: Vec<(String, Type)> = vec![];
    for i in sig.inputs.iter().skip(skip) {
        let FnArg::Typed(p) = i else { continue };
        let n = match &*p.pat {
            Pat::Ident(i) => i.ident.to_string(),
            _ => format!("arg{}", names.len()),
        };
        if last(&p.ty).is_some_and(|s| s.ident == "Python") {
            c.args.push(quote!(py));
            continue;
        }
        let id = format_ident!("__a{}", names.len());
        c.args.push(quote!(#id));
        names.push((n.clone(), (*p.ty).clone()));
        if !explicit {
            order.push((n, false, None));
        }
    }
    for (n, kw, d) in &order {
        let req = d.is_none();
        c.params.push(quote!(::pyo3::impl_::Param { name: #n, keyword_only: #kw, required: #req }));
    }
    for (k, (n, ty)) in names.iter().enumerate() {
        let pos = order.iter().position(|o| &o.0 == n).unwrap_or_else(|| panic!("{n} is not in the signature"));
        let id = format_ident!("__a{k}");
        let h = format_ident!("__h{k}");
        let default = order[pos].2.as_ref();
        let missing = match default {
            Some(d) => quote!(#d),
            None => quote!(unreachable!()),
        };
        // `&T` and `Option<&T>` need a holder
        let opt_inner = last(ty).filter(|s| s.ident == "Option").and_then(generic).cloned();
        let is_str = |t: &Type| last(t).is_some_and(|s| s.ident == "str");
        let holder = |t: &Type| {
            let b = last(t).is_some_and(|s| s.ident == "Bound");
            let a = anon(t);
            if b {
                (quote!(#a), true)
            } else {
                (quote!(::pyo3::PyRef<'_, #a>), false)
            }
        };
        match (ty, &opt_inner) {
            (Type::Reference(r), _) if !is_str(&r.elem) && !matches!(&*r.elem, Type::Slice(_)) => {
                let (t, b) = holder(&r.elem);
                // a Bound holder derefs to itself, a PyRef to the value
                if b {
                    c.lets.push(quote! {
                        let #h: #t = ::pyo3::impl_::arg(__v[#pos].as_ref().unwrap(), #n)?;
                        let #id = &#h;
                    });
                } else {
                    c.lets.push(quote! {
                        let #h: #t = ::pyo3::impl_::arg(__v[#pos].as_ref().unwrap(), #n)?;
                        let #id = ::std::ops::Deref::deref(&#h);
                    });
                }
            }
            (_, Some(Type::Reference(r))) if !is_str(&r.elem) => {
                let (t, b) = holder(&r.elem);
                let get = if b { quote!(#h.as_ref()) } else { quote!(#h.as_deref()) };
                c.lets.push(quote! {
                    let #h: Option<#t> = match __v[#pos].as_ref() {
                        Some(v) => ::pyo3::impl_::arg(v, #n)?,
                        None => None,
                    };
                    let #id = #get;
                });
            }
            _ => c.lets.push(quote! {
                let #id = match __v[#pos].as_ref() {
                    Some(v) => ::pyo3::impl_::arg(v, #n)?,
                    None => #missing,
                };
            }),
        }
    }
    c
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(item as ItemImpl);
    let me = item.self_ty.clone();
    let mut out = vec![];
    for m in item.items.iter_mut() {
        let ImplItem::Fn(f) = m else { continue };
        let fname = f.sig.ident.clone();
        let mut pyname = fname.to_string();
        let (mut new, mut getter, mut class, mut stat) = (false, false, false, false);
        let mut signature = None;
        for a in &f.attrs {
            if is(a, "new") {
                new = true;
            } else if is(a, "getter") {
                getter = true;
                if let Some(s) = pyname.strip_prefix("get_") {
                    pyname = s.to_string();
                }
                if let Meta::List(l) = &a.meta {
                    pyname = l.tokens.to_string();
                }
            } else if is(a, "classmethod") {
                class = true;
            } else if is(a, "staticmethod") {
                stat = true;
            }
        }
        for a in &f.attrs {
            if is(a, "pyo3") {
                let o: Opts = a.parse_args().expect("pyo3(...)");
                if let Some(n) = o.value("name") {
                    pyname = n;
                }
                for x in o.0 {
                    if let Opt::Signature(s) = x {
                        signature = Some(s);
                    }
                }
            }
        }
        f.attrs.retain(|a| !["new", "getter", "classmethod", "staticmethod", "pyo3"].iter().any(|n| is(a, n)));

        // the receiver
        let bound = quote!(unsafe { ::pyo3::Bound::<#me>::from_borrowed(py, slf) });
        let mut skip = 1;
        let first = match f.sig.inputs.first() {
            _ if new || stat => {
                skip = 0;
                vec![]
            }
            _ if class => vec![quote!(&unsafe { ::pyo3::Bound::<::pyo3::types::PyType>::from_borrowed(py, slf) })],
            Some(FnArg::Receiver(r)) if r.mutability.is_some() => vec![quote!(unsafe { ::pyo3::impl_::contents_mut::<#me>(slf) })],
            Some(FnArg::Receiver(_)) => vec![quote!(unsafe { ::pyo3::impl_::contents::<#me>(slf) })],
            Some(FnArg::Typed(t)) => match (last(&t.ty), &*t.ty) {
                (Some(s), _) if s.ident == "PyRef" => vec![quote!(::pyo3::PyRef::from_bound(#bound))],
                (Some(s), _) if s.ident == "PyRefMut" => vec![quote!(::pyo3::PyRefMut::from_bound(#bound))],
                (Some(s), _) if s.ident == "Py" => vec![quote!(#bound.unbind())],
                (Some(s), _) if s.ident == "Bound" => vec![bound],
                (_, Type::Reference(_)) => vec![quote!(&#bound)],
                _ => panic!("unknown receiver of {fname}"),
            },
            None => panic!("{fname} takes nothing"),
        };
        let obj = quote!(*mut ::pyo3::ffi::PyObject);
        if pyname == "__getbuffer__" {
            let first = &first[0];
            out.push(quote! {{
                unsafe extern "C" fn tr(slf: #obj, view: *mut ::pyo3::ffi::Py_buffer, flags: ::std::ffi::c_int) -> ::std::ffi::c_int {
                    unsafe { (*view).obj = ::std::ptr::null_mut() };
                    ::pyo3::impl_::enter(|py| {
                        #[allow(unused_imports)]
                        use ::pyo3::impl_::RetPlain as _;
                        #[allow(unused_unsafe)]
                        ::pyo3::impl_::Ret(unsafe { <#me>::#fname(#first, view, flags) }).conv(py)?;
                        Ok(0)
                    }, -1)
                }
                v.push(::pyo3::impl_::Item::GetBuffer(tr));
            }});
            continue;
        }
        if pyname == "__releasebuffer__" {
            let first = &first[0];
            out.push(quote! {{
                unsafe extern "C" fn tr(slf: #obj, view: *mut ::pyo3::ffi::Py_buffer) {
                    ::pyo3::impl_::enter(|py| {
                        #[allow(unused_imports)]
                        use ::pyo3::impl_::RetPlain as _;
                        #[allow(unused_unsafe)]
                        ::pyo3::impl_::Ret(unsafe { <#me>::#fname(#first, view) }).conv(py)?;
                        Ok(())
                    }, ())
                }
                v.push(::pyo3::impl_::Item::ReleaseBuffer(tr));
            }});
            continue;
        }
        let Call { params, lets, args } = plan(&f.sig, skip, first, signature);
        let bind = quote! {
            let __v = ::pyo3::impl_::bind(py, #pyname, &[#(#params),*], args, kwargs)?;
            #(#lets)*
        };
        let call = quote! {
            #[allow(unused_imports)]
            use ::pyo3::impl_::RetPlain as _;
            #[allow(unused_unsafe)]
            let r = ::pyo3::impl_::Ret(unsafe { <#me>::#fname(#(#args),*) }).conv(py)?;
            Ok(r.into_ptr())
        };
        let item = if new {
            quote! {
                unsafe extern "C" fn tr(ty: #obj, args: #obj, kwargs: #obj) -> #obj {
                    ::pyo3::impl_::enter(|py| {
                        #bind
                        #[allow(unused_imports)]
                        use ::pyo3::impl_::RetNewPlain as _;
                        #[allow(unused_unsafe)]
                        let r: #me = ::pyo3::impl_::RetNew(unsafe { <#me>::#fname(#(#args),*) }).value()?;
                        Ok(::pyo3::impl_::create(py, r, ty)?.into_ptr())
                    }, ::std::ptr::null_mut())
                }
                v.push(::pyo3::impl_::Item::New(tr));
            }
        } else if getter {
            quote! {
                unsafe extern "C" fn tr(slf: #obj, _c: *mut ::std::ffi::c_void) -> #obj {
                    ::pyo3::impl_::enter(|py| { #call }, ::std::ptr::null_mut())
                }
                v.push(::pyo3::impl_::Item::Getter(#pyname, tr));
            }
        } else {
            let kind = if class { quote!(ClassMethod) } else if stat { quote!(StaticMethod) } else { quote!(Method) };
            quote! {
                unsafe extern "C" fn tr(slf: #obj, args: #obj, kwargs: #obj) -> #obj {
                    ::pyo3::impl_::enter(|py| { #bind #call }, ::std::ptr::null_mut())
                }
                v.push(::pyo3::impl_::Item::#kind(#pyname, tr));
            }
        };
        out.push(quote!({ #item }));
    }
    quote! {
        #item
        impl ::pyo3::impl_::Items<#me> for ::pyo3::impl_::Collector<#me> {
            #[allow(clippy::all)]
            fn items(self) -> Vec<::pyo3::impl_::Item> {
                let mut v = vec![];
                #(#out)*
                v
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let name = f.sig.ident.clone();
    let n = name.to_string();
    let mut signature = None;
    for a in &f.attrs {
        if is(a, "pyo3") {
            for x in a.parse_args::<Opts>().expect("pyo3(...)").0 {
                if let Opt::Signature(s) = x {
                    signature = Some(s);
                }
            }
        }
    }
    f.attrs.retain(|a| !is(a, "pyo3"));
    let Call { params, lets, args } = plan(&f.sig, 0, vec![], signature);
    quote! {
        #f
        #[doc(hidden)]
        pub(crate) mod #name {
            use super::*;
            #[allow(dead_code)]
            pub(crate) fn wrap(py: ::pyo3::Python<'_>) -> ::pyo3::PyResult<::pyo3::Bound<'_, ::pyo3::PyAny>> {
                unsafe extern "C" fn tr(_s: *mut ::pyo3::ffi::PyObject, args: *mut ::pyo3::ffi::PyObject, kwargs: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {
                    ::pyo3::impl_::enter(|py| {
                        let __v = ::pyo3::impl_::bind(py, #n, &[#(#params),*], args, kwargs)?;
                        #(#lets)*
                        #[allow(unused_imports)]
                        use ::pyo3::impl_::RetPlain as _;
                        let r = ::pyo3::impl_::Ret(super::#name(#(#args),*)).conv(py)?;
                        Ok(r.into_ptr())
                    }, ::std::ptr::null_mut())
                }
                ::pyo3::impl_::function(py, #n, tr)
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as ItemFn);
    let name = f.sig.ident.clone();
    let args: Vec<T2> = f
        .sig
        .inputs
        .iter()
        .map(|i| match i {
            FnArg::Typed(p) if last(&p.ty).is_some_and(|s| s.ident == "Python") => quote!(py),
            _ => quote!(m),
        })
        .collect();
    quote! {
        #f
        #[doc(hidden)]
        pub mod vh_module {
            pub fn init<'py>(py: ::pyo3::Python<'py>, m: &::pyo3::Bound<'py, ::pyo3::types::PyModule>) -> ::pyo3::PyResult<()> {
                let _ = py;
                super::#name(#(#args),*)
            }
        }
    }
    .into()
}

#[proc_macro_derive(FromPyObject, attributes(pyo3))]
pub fn from_py_object(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let name = d.ident;
    let body = match d.data {
        Data::Enum(e) => {
            let tries = e.variants.iter().map(|v| {
                let n = &v.ident;
                let t = &v.fields.iter().next().expect("newtype variants only").ty;
                quote! {
                    match obj.extract::<#t>() {
                        Ok(v) => return Ok(Self::#n(v)),
                        Err(e) => { let e: ::pyo3::PyErr = e.into(); why.push(e.to_string()); }
                    }
                }
            });
            quote! {
                let mut why: Vec<String> = vec![];
                #(#tries)*
                Err(::pyo3::exceptions::PyTypeError::new_err(format!("failed to extract enum {}: {}", stringify!(#name), why.join("; "))))
            }
        }
        Data::Struct(s) => {
            let t = &s.fields.iter().next().expect("newtype structs only").ty;
            quote!(obj.extract::<#t>().map(Self).map_err(Into::into))
        }
        _ => panic!("unions"),
    };
    quote! {
        impl<'a, 'py> ::pyo3::FromPyObject<'a, 'py> for #name {
            type Error = ::pyo3::PyErr;
            fn extract(obj: ::pyo3::Borrowed<'a, 'py, ::pyo3::PyAny>) -> ::std::result::Result<Self, ::pyo3::PyErr> {
                #body
            }
        }
    }
    .into()
}

#[proc_macro_derive(IntoPyObject, attributes(pyo3))]
pub fn into_py_object(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let name = d.ident;
    let body = match d.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let n = &v.ident;
                quote!(Self::#n(v) => ::pyo3::IntoPyObjectExt::into_bound_py_any(v, py))
            });
            quote!(match self { #(#arms),* })
        }
        Data::Struct(s) if matches!(s.fields, Fields::Unnamed(_)) => {
            quote!(::pyo3::IntoPyObjectExt::into_bound_py_any(self.0, py))
        }
        Data::Struct(s) => {
            let set = s.fields.iter().map(|f| {
                let n = f.ident.as_ref().unwrap();
                let k = n.to_string();
                quote!(d.set_item(#k, self.#n)?;)
            });
            quote!({ let d = ::pyo3::types::PyDict::new(py); #(#set)* Ok(d.into_any()) })
        }
        _ => panic!("unions"),
    };
    quote! {
        impl<'py> ::pyo3::IntoPyObject<'py> for #name {
            type Target = ::pyo3::PyAny;
            type Output = ::pyo3::Bound<'py, ::pyo3::PyAny>;
            type Error = ::pyo3::PyErr;
            fn into_pyobject(self, py: ::pyo3::Python<'py>) -> ::std::result::Result<Self::Output, ::pyo3::PyErr> {
                #body
            }
        }
    }
    .into()
}
