class Object
  def address; (object_id << 1) & 0xffffffffffffffff; end unless method_defined?(:address)
end
