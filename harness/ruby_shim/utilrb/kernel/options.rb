module Kernel
  def validate_options(options, known)
    known = known.each_with_object({}) { |k, h| k.respond_to?(:to_hash) ? h.merge!(k) : h[k.to_sym] = nil } if known.kind_of?(Array)
    options = options.transform_keys(&:to_sym)
    bad = options.keys - known.keys
    raise ArgumentError, "unknown options #{bad}" unless bad.empty?
    known.reject { |_, v| v.nil? }.merge(options)
  end
  def filter_options(options, *defs)
    known = {}
    defs.each { |d| d.kind_of?(Hash) ? known.merge!(d) : Array(d).each { |k| known[k] = nil } }
    options = options.transform_keys(&:to_sym)
    k, u = options.partition { |n, _| known.has_key?(n) }
    [known.reject { |_, v| v.nil? }.merge(k.to_h), u.to_h]
  end
end
