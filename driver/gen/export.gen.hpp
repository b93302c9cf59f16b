
#ifndef DPM_EXPORT_H
#define DPM_EXPORT_H

#ifdef DPM_STATIC_DEFINE
#  define DPM_EXPORT
#  define DPM_NO_EXPORT
#else
#  ifndef DPM_EXPORT
#    ifdef dpm_EXPORTS
        /* We are building this library */
#      define DPM_EXPORT __attribute__((visibility("default")))
#    else
        /* We are using this library */
#      define DPM_EXPORT __attribute__((visibility("default")))
#    endif
#  endif

#  ifndef DPM_NO_EXPORT
#    define DPM_NO_EXPORT __attribute__((visibility("hidden")))
#  endif
#endif

#ifndef DPM_DEPRECATED
#  define DPM_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef DPM_DEPRECATED_EXPORT
#  define DPM_DEPRECATED_EXPORT DPM_EXPORT DPM_DEPRECATED
#endif

#ifndef DPM_DEPRECATED_NO_EXPORT
#  define DPM_DEPRECATED_NO_EXPORT DPM_NO_EXPORT DPM_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef DPM_NO_DEPRECATED
#    define DPM_NO_DEPRECATED
#  endif
#endif

#endif /* DPM_EXPORT_H */
